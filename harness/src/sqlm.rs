//! Reference interpreter for the SQL subset: statements are built as syntax trees, rendered to text
//! for AxmosDB and evaluated directly here with SQL semantics (three-valued logic, bags, ties).
use axmosdb::types::DataType;
use axmosdb::{DBConfig, Database};
use std::cmp::Ordering;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ values
#[derive(Clone, Debug)]
pub enum V {
    N,
    I(i128),
    F(f64),
    B(bool),
    S(String),
}
use V::*;
impl V {
    pub fn of(d: &DataType) -> V {
        match d {
            DataType::Null => N,
            DataType::Bool(b) => B(b.0),
            DataType::Int(v) => I(v.0 as i128),
            DataType::BigInt(v) => I(v.0 as i128),
            DataType::UInt(v) => I(v.0 as i128),
            DataType::BigUInt(v) => I(v.0 as i128),
            DataType::Float(v) => F(v.0 as f64),
            DataType::Double(v) => F(v.0),
            DataType::Blob(b) => S(String::from_utf8_lossy(&crate::val::blob_data(b)).into_owned()),
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, N)
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            I(v) => Some(*v as f64),
            F(v) => Some(*v),
            _ => None,
        }
    }
    pub fn text(&self) -> String {
        match self {
            N => "NULL".into(),
            I(v) => format!("{v}"),
            F(v) => {
                let s = format!("{v}");
                if s.contains('.') { s } else { format!("{s}.0") }
            }
            B(b) => (if *b { "TRUE" } else { "FALSE" }).into(),
            S(s) => format!("'{}'", s.replace('\'', "''")),
        }
    }
    /// Total order used for sorting and grouping: NULL last, numbers by value.
    pub fn tcmp(&self, o: &V) -> Ordering {
        fn rank(v: &V) -> u8 {
            match v {
                B(_) => 0,
                I(_) | F(_) => 1,
                S(_) => 2,
                N => 3,
            }
        }
        match (self, o) {
            (B(a), B(b)) => a.cmp(b),
            (S(a), S(b)) => a.as_bytes().cmp(b.as_bytes()),
            (I(a), I(b)) => a.cmp(b),
            (I(a), F(b)) => int_cmp(*a, *b),
            (F(a), I(b)) => int_cmp(*b, *a).reverse(),
            (F(_), F(_)) => {
                let (a, b) = (self.num().unwrap(), o.num().unwrap());
                a.partial_cmp(&b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan()))
            }
            _ => rank(self).cmp(&rank(o)),
        }
    }
}
/// An integer compared with a double by mathematical value (NaN last).
fn int_cmp(a: i128, b: f64) -> Ordering {
    if b.is_nan() || b >= 1e38 {
        Ordering::Less
    } else if b <= -1e38 {
        Ordering::Greater
    } else {
        // the integer part is exact here
        a.cmp(&(b.trunc() as i128)).then(0.0.partial_cmp(&b.fract()).unwrap())
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.tcmp(o) == Ordering::Equal
    }
}
impl Eq for V {}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<Ordering> {
        Some(self.tcmp(o))
    }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> Ordering {
        self.tcmp(o)
    }
}
impl std::hash::Hash for V {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        match self {
            N => 0u8.hash(h),
            B(b) => (1u8, *b).hash(h),
            S(s) => (2u8, s).hash(h),
            I(v) => (3u8, *v).hash(h),
            F(v) if v.fract() == 0.0 && v.abs() < 1e38 => (3u8, *v as i128).hash(h),
            F(v) => (4u8, v.to_bits()).hash(h),
        }
    }
}
pub type Row = Vec<V>;
pub fn i(v: i128) -> V {
    I(v)
}
pub fn s(v: &str) -> V {
    S(v.into())
}

// ------------------------------------------------------------------ expressions
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Col(Option<String>, String),
    Lit(V),
    Not(Box<E>),
    Neg(Box<E>),
    Bin(Box<E>, &'static str, Box<E>),
    IsNull(Box<E>, bool),
    /// `e IS [NOT] TRUE|FALSE`: (operand, which value, negated)
    IsBool(Box<E>, bool, bool),
    Between(Box<E>, Box<E>, Box<E>, bool),
    In(Box<E>, Vec<E>, bool),
    Like(Box<E>, Box<E>, bool),
    Agg(&'static str, bool, Option<Box<E>>),
    Fun(&'static str, Vec<E>),
}
pub fn col(n: &str) -> E {
    match n.split_once('.') {
        Some((t, c)) => E::Col(Some(t.into()), c.into()),
        None => E::Col(None, n.into()),
    }
}
pub fn lit(v: V) -> E {
    E::Lit(v)
}
pub fn n(v: i128) -> E {
    E::Lit(I(v))
}
pub fn bin(a: E, op: &'static str, b: E) -> E {
    E::Bin(Box::new(a), op, Box::new(b))
}
pub fn not(a: E) -> E {
    E::Not(Box::new(a))
}
pub fn isbool(a: E, v: bool, neg: bool) -> E {
    E::IsBool(Box::new(a), v, neg)
}
pub fn and(a: E, b: E) -> E {
    bin(a, "AND", b)
}
pub fn or(a: E, b: E) -> E {
    bin(a, "OR", b)
}
pub fn eq(a: E, b: E) -> E {
    bin(a, "=", b)
}
pub fn agg(f: &'static str, e: E) -> E {
    E::Agg(f, false, Some(Box::new(e)))
}
pub fn aggd(f: &'static str, e: E) -> E {
    E::Agg(f, true, Some(Box::new(e)))
}
pub fn count() -> E {
    E::Agg("COUNT", false, None)
}
fn opprec(op: &str) -> u8 {
    match op {
        "OR" => 1,
        "AND" => 2,
        "=" | "<>" | "<" | "<=" | ">" | ">=" => 4,
        "+" | "-" | "||" => 6,
        _ => 7,
    }
}
impl E {
    fn prec(&self) -> u8 {
        match self {
            E::Bin(_, op, _) => opprec(op),
            E::Not(_) => 3,
            E::IsNull(..) | E::IsBool(..) | E::Between(..) | E::In(..) | E::Like(..) => 4,
            // documented in the parser: unary minus binds tighter than + but looser than *
            E::Neg(_) => 6,
            E::Lit(I(v)) if *v < 0 => 6,
            E::Lit(F(v)) if *v < 0.0 => 6,
            _ => 10,
        }
    }
    /// `full`: parenthesise every operand; otherwise only where precedence requires it.
    pub fn sql(&self, full: bool) -> String {
        let sub = |e: &E, min: u8| -> String {
            let t = e.sql(full);
            if e.prec() < min || (full && e.prec() < 10) { format!("({t})") } else { t }
        };
        match self {
            E::Col(Some(t), c) => format!("{t}.{c}"),
            E::Col(None, c) => c.clone(),
            E::Lit(v) => v.text(),
            E::Not(e) => format!("NOT {}", sub(e, 3)),
            E::Neg(e) => format!("-{}", sub(e, 7)),
            E::Bin(a, op, b) => {
                let p = opprec(op);
                // comparisons do not chain; the others associate to the left
                format!("{} {op} {}", sub(a, if p == 4 { 5 } else { p }), sub(b, p + 1))
            }
            E::IsNull(e, neg) => format!("{} IS {}NULL", sub(e, 5), if *neg { "NOT " } else { "" }),
            E::IsBool(e, v, neg) => format!("{} IS {}{}", sub(e, 5), if *neg { "NOT " } else { "" }, if *v { "TRUE" } else { "FALSE" }),
            E::Between(e, l, h, neg) => format!("{} {}BETWEEN {} AND {}", sub(e, 5), if *neg { "NOT " } else { "" }, sub(l, 5), sub(h, 5)),
            E::In(e, l, neg) => format!("{} {}IN ({})", sub(e, 5), if *neg { "NOT " } else { "" }, l.iter().map(|x| x.sql(full)).collect::<Vec<_>>().join(", ")),
            E::Like(e, p, neg) => format!("{} {}LIKE {}", sub(e, 5), if *neg { "NOT " } else { "" }, sub(p, 5)),
            E::Agg(f, d, e) => format!("{f}({}{})", if *d { "DISTINCT " } else { "" }, e.as_ref().map(|e| e.sql(full)).unwrap_or("*".into())),
            E::Fun(f, a) => format!("{f}({})", a.iter().map(|x| x.sql(full)).collect::<Vec<_>>().join(", ")),
        }
    }
    pub fn has_agg(&self) -> bool {
        match self {
            E::Agg(..) => true,
            E::Col(..) | E::Lit(_) => false,
            E::Not(e) | E::Neg(e) | E::IsNull(e, _) | E::IsBool(e, _, _) => e.has_agg(),
            E::Bin(a, _, b) | E::Like(a, b, _) => a.has_agg() || b.has_agg(),
            E::Between(a, b, c, _) => a.has_agg() || b.has_agg() || c.has_agg(),
            E::In(a, l, _) => a.has_agg() || l.iter().any(|x| x.has_agg()),
            E::Fun(_, l) => l.iter().any(|x| x.has_agg()),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Rel {
    pub cols: Vec<(String, String)>,
    pub rows: Vec<Row>,
}
impl Rel {
    fn find(&self, t: &Option<String>, c: &str) -> Result<usize, String> {
        if let Some(k) = t.as_ref().and_then(|t| t.strip_prefix('\0')) {
            return k.parse().map_err(|_| "position".into());
        }
        let hits: Vec<usize> = (0..self.cols.len()).filter(|i| self.cols[*i].1 == c && t.as_ref().is_none_or(|t| self.cols[*i].0 == *t)).collect();
        match hits.len() {
            1 => Ok(hits[0]),
            0 => Err(format!("no column {t:?}.{c}")),
            _ => Err(format!("ambiguous column {c}")),
        }
    }
}
type R<T> = Result<T, String>;

pub fn cmp3(a: &V, op: &str, b: &V) -> V {
    if a.is_null() || b.is_null() {
        return N;
    }
    let o = a.tcmp(b);
    B(match op {
        "=" => o == Ordering::Equal,
        "<>" => o != Ordering::Equal,
        "<" => o == Ordering::Less,
        "<=" => o != Ordering::Greater,
        ">" => o == Ordering::Greater,
        _ => o != Ordering::Less,
    })
}
fn tv(v: &V) -> R<Option<bool>> {
    match v {
        N => Ok(None),
        B(b) => Ok(Some(*b)),
        x => Err(format!("not a boolean: {x:?}")),
    }
}
fn from3(v: Option<bool>) -> V {
    v.map(B).unwrap_or(N)
}
/// LIKE with % and _, no escapes: brute force.
pub fn like(s: &[char], p: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('%') => (0..=s.len()).any(|i| like(&s[i..], &p[1..])),
        Some('_') => !s.is_empty() && like(&s[1..], &p[1..]),
        Some(c) => s.first() == Some(c) && like(&s[1..], &p[1..]),
    }
}
fn arith(a: &V, op: &str, b: &V) -> R<V> {
    Ok(match (a, b) {
        (N, _) | (_, N) => N,
        (I(x), I(y)) => match op {
            "+" => I(x + y),
            "-" => I(x - y),
            "*" => I(x.saturating_mul(*y)),
            "/" | "%" if *y == 0 => return Err("division by zero".into()),
            "/" => I(x / y),
            _ => I(x % y),
        },
        _ => {
            let (x, y) = (a.num().ok_or("not a number")?, b.num().ok_or("not a number")?);
            match op {
                "+" => F(x + y),
                "-" => F(x - y),
                "*" => F(x * y),
                // floating point division by zero: IEEE value or error, SQL leaves it open
                "/" | "%" if y == 0.0 => return Err("unspecified: float division by zero".into()),
                "/" => F(x / y),
                _ => F(x % y),
            }
        }
    })
}

pub struct Env<'a> {
    pub rel: &'a Rel,
    /// Rows of the group when aggregates are allowed.
    pub group: Option<&'a [Row]>,
    pub row: &'a [V],
}
impl<'a> Env<'a> {
    pub fn eval(&self, e: &E) -> R<V> {
        Ok(match e {
            E::Col(t, c) => {
                let i = self.rel.find(t, c)?;
                self.row.get(i).cloned().unwrap_or(N)
            }
            E::Lit(v) => v.clone(),
            E::Not(e) => from3(tv(&self.eval(e)?)?.map(|b| !b)),
            E::Neg(e) => arith(&I(0), "-", &self.eval(e)?)?,
            E::Bin(a, op, b) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                match *op {
                    "AND" => from3(match (tv(&x)?, tv(&y)?) {
                        (Some(false), _) | (_, Some(false)) => Some(false),
                        (Some(true), Some(true)) => Some(true),
                        _ => None,
                    }),
                    "OR" => from3(match (tv(&x)?, tv(&y)?) {
                        (Some(true), _) | (_, Some(true)) => Some(true),
                        (Some(false), Some(false)) => Some(false),
                        _ => None,
                    }),
                    "||" => match (&x, &y) {
                        (S(a), S(b)) => S(format!("{a}{b}")),
                        _ => N,
                    },
                    "+" | "-" | "*" | "/" | "%" => arith(&x, op, &y)?,
                    _ => cmp3(&x, op, &y),
                }
            }
            E::IsNull(e, neg) => B(self.eval(e)?.is_null() != *neg),
            E::IsBool(e, v, neg) => B((tv(&self.eval(e)?)? == Some(*v)) != *neg),
            E::Between(e, l, h, neg) => {
                let x = self.eval(e)?;
                let (a, b) = (tv(&cmp3(&x, ">=", &self.eval(l)?))?, tv(&cmp3(&x, "<=", &self.eval(h)?))?);
                let r = match (a, b) {
                    (Some(false), _) | (_, Some(false)) => Some(false),
                    (Some(true), Some(true)) => Some(true),
                    _ => None,
                };
                from3(r.map(|b| b != *neg))
            }
            E::In(e, l, neg) => {
                let x = self.eval(e)?;
                let mut r = Some(false);
                for y in l {
                    match tv(&cmp3(&x, "=", &self.eval(y)?))? {
                        Some(true) => {
                            r = Some(true);
                            break;
                        }
                        None => r = None,
                        _ => {}
                    }
                }
                from3(r.map(|b| b != *neg))
            }
            E::Like(e, p, neg) => match (self.eval(e)?, self.eval(p)?) {
                (S(a), S(p)) => B(like(&a.chars().collect::<Vec<_>>(), &p.chars().collect::<Vec<_>>()) != *neg),
                _ => N,
            },
            E::Fun(f, a) => {
                let v: Vec<V> = a.iter().map(|x| self.eval(x)).collect::<R<_>>()?;
                match (*f, v.as_slice()) {
                    ("COALESCE", v) => v.iter().find(|x| !x.is_null()).cloned().unwrap_or(N),
                    ("NULLIF", [a, b]) => {
                        if cmp3(a, "=", b) == B(true) { N } else { a.clone() }
                    }
                    (_, [N]) => N,
                    ("UPPER", [S(x)]) => S(x.to_uppercase()),
                    ("LOWER", [S(x)]) => S(x.to_lowercase()),
                    ("LENGTH", [S(x)]) => I(x.chars().count() as i128),
                    ("ABS", [x]) => F(x.num().ok_or("abs")?.abs()),
                    ("ROUND", [x]) => F(x.num().ok_or("round")?.round()),
                    ("CEIL", [x]) => F(x.num().ok_or("ceil")?.ceil()),
                    ("FLOOR", [x]) => F(x.num().ok_or("floor")?.floor()),
                    ("SQRT", [x]) => F(x.num().ok_or("sqrt")?.sqrt()),
                    ("CONCAT", v) => {
                        let mut t = String::new();
                        for x in v {
                            match x {
                                S(x) => t.push_str(x),
                                _ => return Ok(N),
                            }
                        }
                        S(t)
                    }
                    _ => return Err(format!("function {f}")),
                }
            }
            E::Agg(f, distinct, arg) => {
                let g = self.group.ok_or("aggregate outside of a group")?;
                let Some(arg) = arg else { return Ok(I(g.len() as i128)) };
                let mut vs: Vec<V> = vec![];
                for r in g {
                    let x = Env { rel: self.rel, group: None, row: r }.eval(arg)?;
                    if !x.is_null() {
                        vs.push(x);
                    }
                }
                if *distinct {
                    vs.sort();
                    vs.dedup();
                }
                match *f {
                    "COUNT" => I(vs.len() as i128),
                    _ if vs.is_empty() => N,
                    "MIN" => vs.into_iter().min().unwrap(),
                    "MAX" => vs.into_iter().max().unwrap(),
                    "SUM" => F(vs.iter().map(|v| v.num().unwrap()).sum()),
                    _ => F(vs.iter().map(|v| v.num().unwrap()).sum::<f64>() / vs.len() as f64),
                }
            }
        })
    }
    pub fn truth(&self, e: &E) -> R<bool> {
        Ok(tv(&self.eval(e)?)? == Some(true))
    }
}

// ------------------------------------------------------------------ queries
#[derive(Clone, Debug)]
pub enum From {
    T(String, String),
    Sub(Box<Sel>, String),
    /// kind: "JOIN" "LEFT JOIN" "RIGHT JOIN" "FULL JOIN" "CROSS JOIN" ","
    J(Box<From>, &'static str, Box<From>, Option<E>),
}
pub fn tab(n: &str) -> From {
    From::T(n.into(), n.into())
}
pub fn tab_as(n: &str, a: &str) -> From {
    From::T(n.into(), a.into())
}
pub fn join(a: From, k: &'static str, b: From, on: Option<E>) -> From {
    From::J(Box::new(a), k, Box::new(b), on)
}
#[derive(Clone, Debug, Default)]
pub struct Sel {
    pub with: Vec<(String, Sel)>,
    pub distinct: bool,
    /// empty: SELECT *
    pub items: Vec<(E, Option<String>)>,
    pub from: Option<From>,
    pub wher: Option<E>,
    pub group: Vec<E>,
    pub having: Option<E>,
    pub order: Vec<(E, bool)>,
    pub limit: Option<usize>,
    pub offset: Option<usize>,
}
impl Sel {
    pub fn from(f: From) -> Sel {
        Sel { from: Some(f), ..Default::default() }
    }
    pub fn items(mut self, v: Vec<E>) -> Self {
        self.items = v.into_iter().map(|e| (e, None)).collect();
        self
    }
    pub fn wher(mut self, e: E) -> Self {
        self.wher = Some(e);
        self
    }
    pub fn order(mut self, v: Vec<(E, bool)>) -> Self {
        self.order = v;
        self
    }
    pub fn sql(&self, full: bool) -> String {
        let mut t = String::new();
        if !self.with.is_empty() {
            t += "WITH ";
            t += &self.with.iter().map(|(n, s)| format!("{n} AS ({})", s.sql(full))).collect::<Vec<_>>().join(", ");
            t += " ";
        }
        t += "SELECT ";
        if self.distinct {
            t += "DISTINCT ";
        }
        if self.items.is_empty() {
            t += "*";
        } else {
            t += &self
                .items
                .iter()
                .map(|(e, a)| match a {
                    Some(a) => format!("{} AS {a}", e.sql(full)),
                    None => e.sql(full),
                })
                .collect::<Vec<_>>()
                .join(", ");
        }
        if let Some(f) = &self.from {
            t += &format!(" FROM {}", fsql(f, full));
        }
        if let Some(e) = &self.wher {
            t += &format!(" WHERE {}", e.sql(full));
        }
        if !self.group.is_empty() {
            t += &format!(" GROUP BY {}", self.group.iter().map(|e| e.sql(full)).collect::<Vec<_>>().join(", "));
        }
        if let Some(e) = &self.having {
            t += &format!(" HAVING {}", e.sql(full));
        }
        if !self.order.is_empty() {
            t += &format!(" ORDER BY {}", self.order.iter().map(|(e, asc)| format!("{}{}", e.sql(full), if *asc { "" } else { " DESC" })).collect::<Vec<_>>().join(", "));
        }
        if let Some(l) = self.limit {
            t += &format!(" LIMIT {l}");
        }
        if let Some(o) = self.offset {
            t += &format!(" OFFSET {o}");
        }
        t
    }
}
fn fsql(f: &From, full: bool) -> String {
    match f {
        From::T(n, a) if n == a => n.clone(),
        From::T(n, a) => format!("{n} AS {a}"),
        From::Sub(s, a) => format!("({}) AS {a}", s.sql(full)),
        From::J(a, ",", b, _) => format!("{}, {}", fsql(a, full), fsql(b, full)),
        From::J(a, k, b, on) => {
            let on = on.as_ref().map(|e| format!(" ON {}", e.sql(full))).unwrap_or_default();
            format!("{} {k} {}{on}", fsql(a, full), fsql(b, full))
        }
    }
}
/// What a query may return: rows with their sort keys, and the window LIMIT/OFFSET selects.
pub struct Ans {
    pub cols: Vec<String>,
    pub rows: Vec<(Row, Row)>,
    pub dirs: Vec<bool>,
    pub limit: Option<usize>,
    pub offset: usize,
}
fn keycmp(a: &Row, b: &Row, dirs: &[bool]) -> Ordering {
    for (k, asc) in dirs.iter().enumerate() {
        let o = a[k].tcmp(&b[k]);
        let o = if *asc { o } else { o.reverse() };
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}
impl Ans {
    pub fn check(&self, got: &[Row]) -> R<()> {
        let mut full: Vec<&(Row, Row)> = self.rows.iter().collect();
        full.sort_by(|a, b| keycmp(&a.1, &b.1, &self.dirs));
        let n = full.len();
        let lo = self.offset.min(n);
        let hi = self.limit.map(|l| lo.saturating_add(l).min(n)).unwrap_or(n);
        if got.len() != hi - lo {
            return Err(format!("{} rows instead of {}: got {} expected {}", got.len(), hi - lo, show(got), self.show()));
        }
        let mut i = 0;
        while i < n {
            let mut j = i + 1;
            while j < n && keycmp(&full[i].1, &full[j].1, &self.dirs) == Ordering::Equal {
                j += 1;
            }
            // tie group [i, j); positions of it inside the window
            let (a, b) = (i.max(lo), j.min(hi));
            if a < b {
                let mut avail: Vec<&Row> = full[i..j].iter().map(|x| &x.0).collect();
                for g in &got[a - lo..b - lo] {
                    match avail.iter().position(|r| *r == g) {
                        Some(p) => {
                            avail.swap_remove(p);
                        }
                        None => return Err(format!("row {g:?} is not expected at that position: got {} expected {}", show(got), self.show())),
                    }
                }
            }
            i = j;
        }
        Ok(())
    }
    pub fn show(&self) -> String {
        let mut v: Vec<&(Row, Row)> = self.rows.iter().collect();
        v.sort_by(|a, b| keycmp(&a.1, &b.1, &self.dirs));
        let v: Vec<Row> = v.into_iter().map(|x| x.0.clone()).collect();
        format!("{}{}{}", show(&v), self.limit.map(|l| format!(" limit {l}")).unwrap_or_default(), if self.offset > 0 { format!(" offset {}", self.offset) } else { "".into() })
    }
}
pub fn show(rows: &[Row]) -> String {
    let t: Vec<String> = rows.iter().take(30).map(|r| format!("({})", r.iter().map(|v| v.text()).collect::<Vec<_>>().join(","))).collect();
    format!("[{}{}]", t.join(" "), if rows.len() > 30 { " .." } else { "" })
}

// ------------------------------------------------------------------ database model
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Col {
    pub name: String,
    pub ty: &'static str,
    pub notnull: bool,
    pub def: V,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Tab {
    /// distinguishes a table from an earlier one of the same name
    pub id: u64,
    /// changes with every ALTER TABLE
    pub ver: u64,
    pub cols: Vec<Col>,
    /// name of the index / constraint, columns
    pub uniq: Vec<(String, Vec<usize>)>,
    pub rows: BTreeMap<u64, Row>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Db {
    pub tabs: BTreeMap<String, Tab>,
}
#[derive(Clone, Debug)]
pub enum St {
    Q(Sel),
    Ins(String, Option<Vec<String>>, Vec<Vec<E>>),
    InsSel(String, Sel),
    Upd(String, Vec<(String, E)>, Option<E>),
    Del(String, Option<E>),
    /// columns, PRIMARY KEY columns, UNIQUE column groups
    Create(String, Vec<Col>, Vec<String>, Vec<Vec<String>>),
    Index(String, String, Vec<String>),
    Drop(String),
    Alter(String, Alt),
    /// CREATE … IF NOT EXISTS, DROP … IF EXISTS
    Maybe(Box<St>),
    Raw(String),
}
pub fn c(name: &str, ty: &'static str) -> Col {
    Col { name: name.into(), ty, notnull: false, def: N }
}
pub fn cnn(name: &str, ty: &'static str) -> Col {
    Col { name: name.into(), ty, notnull: true, def: N }
}
pub fn cdef(name: &str, ty: &'static str, def: V) -> Col {
    Col { name: name.into(), ty, notnull: false, def }
}
/// What ALTER TABLE does
#[derive(Clone, Debug)]
pub enum Alt {
    Add(Col),
    DropCol(String),
    Type(String, &'static str),
    SetDef(String, V),
    DropDef(String),
    SetNn(String),
    DropNn(String),
    Uniq(Vec<String>),
    Pk(Vec<String>),
}
fn coldef(c: &Col) -> String {
    format!("{} {}{}{}", c.name, c.ty, if c.notnull { " NOT NULL" } else { "" }, if c.def.is_null() { String::new() } else { format!(" DEFAULT {}", E::Lit(c.def.clone()).sql(false)) })
}
fn to_type(v: &V, ty: &str) -> R<V> {
    Ok(match (v, ty) {
        (V::I(x), "DOUBLE") => V::F(*x as f64),
        (V::I(x), "FLOAT") => V::F(*x as f32 as f64),
        (V::F(x), "FLOAT") => V::F(*x as f32 as f64),
        (V::F(_), "INT" | "BIGINT" | "UINT" | "BIGUINT") | (V::S(_), "INT" | "BIGINT" | "UINT" | "BIGUINT" | "FLOAT" | "DOUBLE") | (V::I(_) | V::F(_), "TEXT") => return Err("unspecified: conversion".into()),
        _ => v.clone(),
    })
}
impl St {
    pub fn sql(&self, full: bool) -> String {
        match self {
            St::Q(s) => s.sql(full),
            St::Ins(t, cols, rows) => format!(
                "INSERT INTO {t}{} VALUES {}",
                cols.as_ref().map(|c| format!(" ({})", c.join(", "))).unwrap_or_default(),
                rows.iter().map(|r| format!("({})", r.iter().map(|e| e.sql(full)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", ")
            ),
            St::InsSel(t, s) => format!("INSERT INTO {t} {}", s.sql(full)),
            St::Upd(t, set, w) => format!(
                "UPDATE {t} SET {}{}",
                set.iter().map(|(c, e)| format!("{c} = {}", e.sql(full))).collect::<Vec<_>>().join(", "),
                w.as_ref().map(|e| format!(" WHERE {}", e.sql(full))).unwrap_or_default()
            ),
            St::Del(t, w) => format!("DELETE FROM {t}{}", w.as_ref().map(|e| format!(" WHERE {}", e.sql(full))).unwrap_or_default()),
            St::Create(t, cols, pk, uq) => {
                let mut v: Vec<String> = cols.iter().map(coldef).collect();
                if !pk.is_empty() {
                    v.push(format!("PRIMARY KEY ({})", pk.join(", ")));
                }
                for u in uq {
                    v.push(format!("UNIQUE ({})", u.join(", ")));
                }
                format!("CREATE TABLE {t} ({})", v.join(", "))
            }
            St::Index(n, t, cols) => format!("CREATE UNIQUE INDEX {n} ON {t} ({})", cols.join(", ")),
            St::Drop(t) => format!("DROP TABLE {t}"),
            St::Alter(t, a) => {
                let x = match a {
                    Alt::Add(c) => format!("ADD COLUMN {}", coldef(c)),
                    Alt::DropCol(n) => format!("DROP COLUMN {n}"),
                    Alt::Type(n, ty) => format!("ALTER COLUMN {n} {ty}"),
                    Alt::SetDef(n, v) => format!("ALTER COLUMN {n} SET DEFAULT {}", E::Lit(v.clone()).sql(false)),
                    Alt::DropDef(n) => format!("ALTER COLUMN {n} DROP DEFAULT"),
                    Alt::SetNn(n) => format!("ALTER COLUMN {n} SET NOT NULL"),
                    Alt::DropNn(n) => format!("ALTER COLUMN {n} DROP NOT NULL"),
                    Alt::Uniq(c) => format!("ADD CONSTRAINT UNIQUE ({})", c.join(", ")),
                    Alt::Pk(c) => format!("ADD CONSTRAINT PRIMARY KEY ({})", c.join(", ")),
                };
                format!("ALTER TABLE {t} {x}")
            }
            St::Maybe(st) => {
                let s = st.sql(full);
                match **st {
                    St::Create(..) => s.replacen("TABLE", "TABLE IF NOT EXISTS", 1),
                    St::Index(..) => s.replacen("INDEX", "INDEX IF NOT EXISTS", 1),
                    _ => s.replacen("TABLE", "TABLE IF EXISTS", 1),
                }
            }
            St::Raw(s) => s.clone(),
        }
    }
}
/// Effect of one statement in the model.
pub enum Eff {
    Rows(Ans),
    Count(usize),
    Ddl,
    /// must be refused
    Err(String),
}
impl St {
    /// The table the statement writes.
    pub fn table(&self) -> Option<&str> {
        match self {
            St::Ins(t, ..) | St::InsSel(t, _) | St::Upd(t, ..) | St::Del(t, _) | St::Create(t, ..) | St::Index(_, t, _) | St::Drop(t) | St::Alter(t, _) => Some(t),
            St::Maybe(st) => st.table(),
            St::Q(_) | St::Raw(_) => None,
        }
    }
    pub fn names(&self) -> Vec<String> {
        self.table().into_iter().map(|t| t.to_string()).collect()
    }
}
impl Tab {
    pub fn unique_ok(&self) -> R<()> {
        for c in &self.cols {
            let k = self.cols.iter().position(|x| x.name == c.name).unwrap();
            if c.notnull && self.rows.values().any(|r| r[k].is_null()) {
                return Err(format!("NULL in NOT NULL column {}", c.name));
            }
        }
        for (name, cols) in &self.uniq {
            let mut seen: std::collections::HashSet<Vec<V>> = Default::default();
            for r in self.rows.values() {
                let k: Vec<V> = cols.iter().map(|c| r[*c].clone()).collect();
                if k.iter().any(|v| v.is_null()) {
                    continue;
                }
                if !seen.insert(k.clone()) {
                    return Err(format!("duplicate {k:?} for {name}"));
                }
            }
        }
        Ok(())
    }
    pub fn rel(&self, alias: &str) -> Rel {
        Rel { cols: self.cols.iter().map(|c| (alias.to_string(), c.name.clone())).collect(), rows: self.rows.values().cloned().collect() }
    }
}
impl Db {
    pub fn from_rel(&self, f: &From, with: &BTreeMap<String, Rel>) -> R<Rel> {
        match f {
            From::T(n, a) => {
                if let Some(r) = with.get(n) {
                    let mut r = r.clone();
                    for c in r.cols.iter_mut() {
                        c.0 = a.clone();
                    }
                    return Ok(r);
                }
                Ok(self.tabs.get(n).ok_or(format!("no table {n}"))?.rel(a))
            }
            From::Sub(s, a) => {
                let r = self.query_with(s, with)?;
                Ok(Rel { cols: r.cols.iter().map(|c| (a.clone(), c.clone())).collect(), rows: sorted(&r) })
            }
            From::J(l, k, r, on) => {
                let (l, r) = (self.from_rel(l, with)?, self.from_rel(r, with)?);
                let mut out = Rel { cols: l.cols.iter().chain(&r.cols).cloned().collect(), rows: vec![] };
                let mut rhit = vec![false; r.rows.len()];
                let shape = out.clone();
                for a in &l.rows {
                    let mut hit = false;
                    for (j, b) in r.rows.iter().enumerate() {
                        let row: Row = a.iter().chain(b).cloned().collect();
                        let ok = match on {
                            Some(e) => Env { rel: &shape, group: None, row: &row }.truth(e)?,
                            None => true,
                        };
                        if ok {
                            hit = true;
                            rhit[j] = true;
                            out.rows.push(row);
                        }
                    }
                    if !hit && (k.starts_with("LEFT") || k.starts_with("FULL")) {
                        out.rows.push(a.iter().cloned().chain(r.cols.iter().map(|_| N)).collect());
                    }
                }
                if k.starts_with("RIGHT") || k.starts_with("FULL") {
                    for (j, b) in r.rows.iter().enumerate() {
                        if !rhit[j] {
                            out.rows.push(l.cols.iter().map(|_| N).chain(b.iter().cloned()).collect());
                        }
                    }
                }
                Ok(out)
            }
        }
    }
    /// Names are resolved also where there is no row to evaluate them on.
    fn bind(&self, st: &St) -> R<()> {
        if self.tabs.values().all(|t| !t.rows.is_empty()) {
            return Ok(());
        }
        let mut d = self.clone();
        for t in d.tabs.values_mut() {
            t.rows = [(0, vec![N; t.cols.len()])].into();
            t.uniq.clear();
        }
        let r = match st {
            St::Q(q) => d.query_with(q, &BTreeMap::new()).map(|_| ()),
            _ => d.exec_inner(st, &mut 1).map(|_| ()),
        };
        match r {
            Err(e) if e.starts_with("no column") || e.starts_with("ambiguous") => Err(e),
            _ => Ok(()),
        }
    }
    pub fn query(&self, q: &Sel) -> R<Ans> {
        if self.tabs.values().any(|t| t.rows.is_empty()) {
            self.bind(&St::Q(q.clone()))?;
        }
        self.query_with(q, &BTreeMap::new())
    }
    pub fn query_with(&self, q: &Sel, with: &BTreeMap<String, Rel>) -> R<Ans> {
        let mut with = with.clone();
        for (n, s) in &q.with {
            let a = self.query_with(s, &with)?;
            with.insert(n.clone(), Rel { cols: a.cols.iter().map(|c| (n.clone(), c.clone())).collect(), rows: sorted(&a) });
        }
        let mut rel = match &q.from {
            Some(f) => self.from_rel(f, &with)?,
            None => Rel { cols: vec![], rows: vec![vec![]] },
        };
        if let Some(w) = &q.wher {
            let shape = Rel { cols: rel.cols.clone(), rows: vec![] };
            let mut keep = vec![];
            for r in rel.rows {
                if (Env { rel: &shape, group: None, row: &r }).truth(w)? {
                    keep.push(r);
                }
            }
            rel = Rel { cols: shape.cols, rows: keep };
        }
        let items: Vec<(E, Option<String>)> = if q.items.is_empty() { 
            // a name two columns share is no way to tell which one is meant; the position is
            let twice = |x: &(String, String)| rel.cols.iter().filter(|y| *y == x).count() > 1;
            rel.cols.iter().enumerate().map(|(k, x)| (E::Col(Some(if twice(x) { format!("\0{k}") } else { x.0.clone() }), x.1.clone()), None)).collect()
        } else { q.items.clone() };
        let cols: Vec<String> = items
            .iter()
            .enumerate()
            .map(|(k, (e, a))| match (a, e) {
                (Some(a), _) => a.clone(),
                (_, E::Col(_, c)) => c.clone(),
                _ => format!("?{k}"),
            })
            .collect();
        let shape = Rel { cols: rel.cols.clone(), rows: vec![] };
        let aggregated = !q.group.is_empty() || items.iter().any(|(e, _)| e.has_agg()) || q.having.as_ref().is_some_and(|e| e.has_agg());
        // ORDER BY may name an output alias
        let order: Vec<(E, bool)> = q
            .order
            .iter()
            .map(|(e, d)| {
                if let E::Col(None, c) = e {
                    if let Some((x, _)) = items.iter().find(|(_, a)| a.as_ref() == Some(c)) {
                        return (x.clone(), *d);
                    }
                }
                (e.clone(), *d)
            })
            .collect();
        let mut rows: Vec<(Row, Row)> = vec![];
        let mut emit = |env: Env<'_>| -> R<()> {
            let out: Row = items.iter().map(|(e, _)| env.eval(e)).collect::<R<_>>()?;
            let key: Row = order.iter().map(|(e, _)| env.eval(e)).collect::<R<_>>()?;
            rows.push((out, key));
            Ok(())
        };
        if aggregated {
            let mut groups: Vec<(Row, Vec<Row>)> = vec![];
            for r in &rel.rows {
                let env = Env { rel: &shape, group: None, row: r };
                let k: Row = q.group.iter().map(|e| env.eval(e)).collect::<R<_>>()?;
                match groups.iter_mut().find(|g| g.0 == k) {
                    Some(g) => g.1.push(r.clone()),
                    None => groups.push((k, vec![r.clone()])),
                }
            }
            if q.group.is_empty() && groups.is_empty() {
                groups.push((vec![], vec![]));
            }
            for (_, g) in &groups {
                let first: Row = g.first().cloned().unwrap_or_default();
                let env = Env { rel: &shape, group: Some(g), row: &first };
                if let Some(h) = &q.having {
                    if !env.truth(h)? {
                        continue;
                    }
                }
                emit(env)?;
            }
        } else {
            for r in &rel.rows {
                emit(Env { rel: &shape, group: None, row: r })?;
            }
        }
        if q.distinct {
            let mut seen: Vec<Row> = vec![];
            rows.retain(|(o, _)| {
                if seen.contains(o) {
                    false
                } else {
                    seen.push(o.clone());
                    true
                }
            });
        }
        Ok(Ans { cols, rows, dirs: order.iter().map(|x| x.1).collect(), limit: q.limit, offset: q.offset.unwrap_or(0) })
    }
    /// Executes a statement; on error nothing changes.
    pub fn exec(&mut self, st: &St, next_row: &mut u64) -> Eff {
        if let Err(e) = self.bind(st) {
            return Eff::Err(e);
        }
        let mut d = self.clone();
        match d.exec_inner(st, next_row) {
            Ok(e) => {
                *self = d;
                e
            }
            Err(e) => Eff::Err(e),
        }
    }
    fn exec_inner(&mut self, st: &St, next_row: &mut u64) -> R<Eff> {
        match st {
            St::Q(q) => Ok(Eff::Rows(self.query(q)?)),
            St::Ins(t, cols, rows) => {
                let tb = self.tabs.get(t).ok_or("no such table")?;
                let idx: Vec<usize> = match cols {
                    Some(c) => c.iter().map(|c| tb.cols.iter().position(|x| x.name == *c).ok_or(format!("no column {c}"))).collect::<R<_>>()?,
                    None => (0..tb.cols.len()).collect(),
                };
                let empty = Rel::default();
                let mut add = vec![];
                for r in rows {
                    if r.len() != idx.len() {
                        return Err("wrong number of values".into());
                    }
                    let mut v: Row = tb.cols.iter().map(|c| c.def.clone()).collect();
                    for (e, i) in r.iter().zip(&idx) {
                        v[*i] = Env { rel: &empty, group: None, row: &[] }.eval(e)?;
                    }
                    add.push(v);
                }
                self.add(t, add, next_row)
            }
            St::InsSel(t, q) => {
                let a = self.query(q)?;
                let add = sorted(&a);
                self.add(t, add, next_row)
            }
            St::Upd(t, set, w) => {
                let tb = self.tabs.get_mut(t).ok_or("no such table")?;
                let shape = Rel { rows: vec![], ..tb.rel(t) };
                let mut n = 0;
                for r in tb.rows.values_mut() {
                    let old = r.clone();
                    let env = Env { rel: &shape, group: None, row: &old };
                    if match w {
                        Some(e) => env.truth(e)?,
                        None => true,
                    } {
                        n += 1;
                        for (c, e) in set {
                            let k = tb.cols.iter().position(|x| x.name == *c).ok_or(format!("no column {c}"))?;
                            r[k] = to_type(&env.eval(e)?, tb.cols[k].ty)?;
                        }
                    }
                }
                tb.unique_ok()?;
                Ok(Eff::Count(n))
            }
            St::Del(t, w) => {
                let tb = self.tabs.get_mut(t).ok_or("no such table")?;
                let shape = Rel { rows: vec![], ..tb.rel(t) };
                let before = tb.rows.len();
                let mut err = None;
                tb.rows.retain(|_, r| match w {
                    Some(e) => match (Env { rel: &shape, group: None, row: r }).truth(e) {
                        Ok(b) => !b,
                        Err(x) => {
                            err = Some(x);
                            true
                        }
                    },
                    None => false,
                });
                if let Some(e) = err {
                    return Err(e);
                }
                Ok(Eff::Count(before - tb.rows.len()))
            }
            St::Create(t, cols, pk, uq) => {
                if self.tabs.contains_key(t) {
                    return Err("table exists".into());
                }
                let mut cols = cols.clone();
                let pos = |n: &String| cols.iter().position(|c| c.name == *n).ok_or(format!("no column {n}"));
                let mut uniq = vec![];
                if !pk.is_empty() {
                    uniq.push(("pk".into(), pk.iter().map(&pos).collect::<R<Vec<_>>>()?));
                }
                for (k, u) in uq.iter().enumerate() {
                    uniq.push((format!("u{k}"), u.iter().map(&pos).collect::<R<Vec<_>>>()?));
                }
                for p in pk {
                    cols.iter_mut().find(|c| c.name == *p).unwrap().notnull = true;
                }
                *next_row += 1;
                self.tabs.insert(t.clone(), Tab { id: *next_row, ver: 0, cols, uniq, rows: BTreeMap::new() });
                Ok(Eff::Ddl)
            }
            St::Index(nm, t, cols) => {
                if self.tabs.values().any(|t| t.uniq.iter().any(|u| u.0 == *nm)) {
                    return Err("index exists".into());
                }
                let tb = self.tabs.get_mut(t).ok_or("no such table")?;
                let k = cols.iter().map(|n| tb.cols.iter().position(|c| c.name == *n).ok_or(format!("no column {n}"))).collect::<R<Vec<_>>>()?;
                tb.uniq.push((nm.clone(), k));
                tb.unique_ok()?;
                Ok(Eff::Ddl)
            }
            St::Maybe(st) => {
                let done = match &**st {
                    St::Create(t, ..) => self.tabs.contains_key(t),
                    St::Index(nm, ..) => self.tabs.values().any(|t| t.uniq.iter().any(|u| u.0 == *nm)),
                    St::Drop(t) => !self.tabs.contains_key(t),
                    _ => false,
                };
                if done { Ok(Eff::Ddl) } else { self.exec_inner(st, next_row) }
            }
            St::Drop(t) => {
                self.tabs.remove(t).ok_or("no such table")?;
                Ok(Eff::Ddl)
            }
            St::Alter(t, a) => {
                let tb = self.tabs.get_mut(t).ok_or("no such table")?;
                *next_row += 1;
                tb.ver = *next_row;
                let find = |tb: &Tab, n: &String| tb.cols.iter().position(|c| c.name == *n).ok_or(format!("no column {n}"));
                match a {
                    Alt::Add(c) => {
                        if find(tb, &c.name).is_ok() {
                            return Err("column exists".into());
                        }
                        tb.cols.push(c.clone());
                        for r in tb.rows.values_mut() {
                            r.push(c.def.clone());
                        }
                    }
                    Alt::DropCol(n) => {
                        let k = find(tb, n)?;
                        if tb.cols.len() == 1 {
                            return Err("unspecified: the only column".into());
                        }
                        tb.cols.remove(k);
                        for r in tb.rows.values_mut() {
                            r.remove(k);
                        }
                        tb.uniq.retain(|u| !u.1.contains(&k));
                        for u in tb.uniq.iter_mut().flat_map(|u| u.1.iter_mut()) {
                            if *u > k {
                                *u -= 1;
                            }
                        }
                    }
                    Alt::Type(n, ty) => {
                        let k = find(tb, n)?;
                        tb.cols[k].ty = ty;
                        tb.cols[k].def = to_type(&tb.cols[k].def, ty)?;
                        for r in tb.rows.values_mut() {
                            r[k] = to_type(&r[k], ty)?;
                        }
                    }
                    Alt::SetDef(n, v) => {
                        let k = find(tb, n)?;
                        tb.cols[k].def = to_type(v, tb.cols[k].ty)?;
                    }
                    Alt::DropDef(n) => {
                        let k = find(tb, n)?;
                        tb.cols[k].def = N;
                    }
                    Alt::SetNn(n) | Alt::DropNn(n) => {
                        let k = find(tb, n)?;
                        tb.cols[k].notnull = matches!(a, Alt::SetNn(_));
                    }
                    Alt::Uniq(cols) | Alt::Pk(cols) => {
                        let k = cols.iter().map(|n| find(tb, n)).collect::<R<Vec<_>>>()?;
                        if tb.uniq.iter().any(|u| u.1 == k) {
                            return Err("unspecified: such a constraint exists".into());
                        }
                        let is_pk = matches!(a, Alt::Pk(_));
                        if is_pk && tb.uniq.iter().any(|u| u.0 == "pk") {
                            return Err("a second primary key".into());
                        }
                        tb.uniq.push((if is_pk { "pk".into() } else { format!("c{}", cols.join("_")) }, k.clone()));
                        if is_pk {
                            for k in k {
                                tb.cols[k].notnull = true;
                            }
                        }
                    }
                }
                tb.unique_ok()?;
                Ok(Eff::Ddl)
            }
            St::Raw(_) => Err("raw".into()),
        }
    }
    fn add(&mut self, t: &str, add: Vec<Row>, next_row: &mut u64) -> R<Eff> {
        let tb = self.tabs.get_mut(t).ok_or("no such table")?;
        let n = add.len();
        for v in add {
            if v.len() != tb.cols.len() {
                return Err("wrong number of values".into());
            }
            let v = v.iter().zip(&tb.cols).map(|(v, c)| to_type(v, c.ty)).collect::<R<Row>>()?;
            tb.rows.insert(*next_row, v);
            *next_row += 1;
        }
        tb.unique_ok()?;
        Ok(Eff::Count(n))
    }
}
/// Rows of an answer in order, inside its window.
pub fn sorted(a: &Ans) -> Vec<Row> {
    let mut v: Vec<&(Row, Row)> = a.rows.iter().collect();
    v.sort_by(|x, y| keycmp(&x.1, &y.1, &a.dirs));
    let n = v.len();
    let lo = a.offset.min(n);
    let hi = a.limit.map(|l| (lo + l).min(n)).unwrap_or(n);
    v[lo..hi].iter().map(|x| x.0.clone()).collect()
}

// ------------------------------------------------------------------ the real database
#[derive(Clone, Debug)]
pub enum Res {
    Rows(Vec<Row>),
    Count(u64),
    Ddl,
    Err(String),
}
impl Res {
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Err(_))
    }
    pub fn show(&self) -> String {
        match self {
            Res::Rows(r) => show(r),
            Res::Count(n) => format!("{n} rows affected"),
            Res::Ddl => "ok".into(),
            Res::Err(e) => format!("error: {e}"),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub page: usize,
    pub cache: usize,
    pub pool: usize,
    pub min_keys: usize,
    pub siblings: usize,
}
pub const CFG: Cfg = Cfg { page: 4096, cache: 4000, pool: 1, min_keys: 3, siblings: 2 };
impl Cfg {
    pub fn to(self) -> DBConfig {
        DBConfig::builder().page_size(self.page).cache_size(self.cache).pool_size(self.pool).min_keys_per_page(self.min_keys).num_siblings_per_side(self.siblings).build()
    }
}
pub fn to_res(r: Result<axmosdb::runtime::QueryResult, String>) -> Res {
    match r {
        Ok(r) => match r.rows_affected() {
            Some(n) => Res::Count(n),
            None => match r.into_rows() {
                Some(rs) => Res::Rows(rs.iterrows().map(|r| r.iter().map(V::of).collect()).collect()),
                None => Res::Ddl,
            },
        },
        Err(e) => Res::Err(e),
    }
}
pub fn run(db: &Database, sql: &str) -> Res {
    crate::fw::beat();
    to_res(db.execute(sql).map_err(|e| e.to_string()))
}
pub type Session = axmosdb::tcp::session::Session;
pub fn run_s(s: &mut Session, sql: &str) -> Res {
    crate::fw::beat();
    to_res(s.execute(sql).map_err(|e| e.to_string()))
}
/// Compares the outcome of a statement with the model's.
pub fn compare(eff: &Eff, got: &Res) -> R<()> {
    match (eff, got) {
        (Eff::Rows(a), Res::Rows(r)) => a.check(r),
        (Eff::Count(n), Res::Count(m)) if *n as u64 == *m => Ok(()),
        (Eff::Count(n), Res::Count(m)) => Err(format!("{m} rows affected, expected {n}")),
        (Eff::Ddl, Res::Ddl) => Ok(()),
        (Eff::Err(_), Res::Err(_)) => Ok(()),
        (Eff::Err(e), g) => Err(format!("accepted ({}), expected an error: {e}", g.show())),
        (e, g) => Err(format!(
            "{}, expected {}",
            g.show(),
            match e {
                Eff::Rows(a) => a.show(),
                Eff::Count(n) => format!("{n} rows affected"),
                _ => "success".into(),
            }
        )),
    }
}
/// Every table of the model read back completely and compared.
pub fn same_contents(db: &Db, read: impl Fn(&str) -> Res) -> R<()> {
    for (t, tb) in &db.tabs {
        let q = Sel::from(tab(t));
        let a = db.query(&q)?;
        match read(&q.sql(false)) {
            Res::Rows(r) => a.check(&r).map_err(|e| format!("table {t}: {e}"))?,
            g => return Err(format!("table {t} cannot be read: {}", g.show())),
        }
        let _ = tb;
    }
    Ok(())
}
