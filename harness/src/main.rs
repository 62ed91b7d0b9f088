mod fw;
mod tap;
#[allow(dead_code)]
mod val;
#[cfg(feature = "wal")]
mod c17;
#[cfg(feature = "tuple")]
mod c18;
#[cfg(feature = "tcp")]
mod c20;
#[cfg(feature = "tree")]
mod treelib;
#[cfg(feature = "tree")]
mod c10;
#[cfg(feature = "tree")]
mod c11;
#[cfg(feature = "tree")]
mod c11sql;

#[cfg(feature = "types")]
mod c19;
#[cfg(feature = "sql")]
#[allow(dead_code)]
mod sqlm;
#[cfg(feature = "sql")]
mod c05;
#[cfg(feature = "sql")]
mod c05bool;
#[cfg(feature = "sql")]
mod c05num;
#[cfg(feature = "sql")]
mod c06;
#[cfg(feature = "sql")]
#[allow(dead_code)]
mod hist;
#[cfg(feature = "sql")]
mod c03;
#[cfg(feature = "sql")]
mod c04;
#[cfg(feature = "sql")]
mod c07;

#[cfg(feature = "sql")]
mod c13;
#[cfg(feature = "sql")]
mod c09;
#[cfg(feature = "sql")]
mod c12;
#[cfg(feature = "sql")]
mod c15;
#[cfg(feature = "sql")]
mod c16;
#[cfg(feature = "sql")]
mod c01;
#[cfg(feature = "sql")]
mod c02;
#[cfg(feature = "sql")]
mod c08;
#[cfg(feature = "sql")]
mod crash;

#[cfg(feature = "mt")]
mod c14;

use fw::*;

fn lookup(id: &str) -> Option<Box<dyn Check>> {
    Some(match id {
        #[cfg(feature = "wal")]
        "C17" => Box::new(c17::C17),
        #[cfg(feature = "tuple")]
        "C18" => Box::new(c18::C18),
        #[cfg(feature = "sql")]
        "C03" => Box::new(c03::C03),
        #[cfg(feature = "sql")]
        "C04" => Box::new(c04::C04),
        #[cfg(feature = "sql")]
        "C13" => Box::new(c13::C13),
        #[cfg(feature = "sql")]
        "C09" => Box::new(c09::C09),
        #[cfg(feature = "sql")]
        "C12" => Box::new(c12::C12),
        #[cfg(feature = "sql")]
        "C15" => Box::new(c15::C15),
        #[cfg(feature = "sql")]
        "C16" => Box::new(c16::C16),
        #[cfg(feature = "mt")]
        "C14" => Box::new(c14::C14),
        #[cfg(feature = "sql")]
        "C01" => Box::new(c01::C01),
        #[cfg(feature = "sql")]
        "C02" => Box::new(c02::C02),
        #[cfg(feature = "sql")]
        "C08" => Box::new(c08::C08),
        #[cfg(feature = "sql")]
        "C07" => Box::new(c07::C07),
        #[cfg(feature = "sql")]
        "C06" => Box::new(c06::C06),
        #[cfg(feature = "sql")]
        "C05" => Box::new(c05::C05),
        #[cfg(feature = "types")]
        "C19" => Box::new(c19::C19),
        #[cfg(feature = "tcp")]
        "C20" => Box::new(c20::C20),
        #[cfg(feature = "tree")]
        "C10" => Box::new(c10::C10),
        #[cfg(feature = "tree")]
        "C11" => Box::new(c11::C11),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            worker_main(&*lookup(&a[2]).expect("check"), tier);
            0
        }
        Some("check") => {
            let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            parent_main(&*lookup(&a[2]).expect("check"), tier)
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            replay_main(&*lookup(v["property"].as_str().unwrap()).expect("check"), &a[2])
        }
        _ => {
            eprintln!("usage: axverif check <id> quick|thorough | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
