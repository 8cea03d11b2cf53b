// mlog SG | sync ADDR FILE SG | confirm HEX | status HEX; series on stdin: DEV MEAS TYPE ENC COMP
use std::io::{self, BufRead};
use tsfile_writer::sync::sync_sender::probe;
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "confirm" => return println!("ANSWER {}", probe::confirm(&unhex(&a[1]))),
        "status" => return println!("ANSWER {}", probe::status(&unhex(&a[1]))),
        "who" => { let o = |s: &'static str| if s == "-" { None } else { Some(s) };
                   let b: Vec<&'static str> = a.iter().map(|s| &*Box::leak(s.clone().into_boxed_str())).collect();
                   return println!("ANSWER {}", probe::who(b[1], o(b[2]), o(b[3]))) }
        _ => {}
    }
    let lines: Vec<String> = io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    match a[0].as_str() {
        "mlog" => match probe::mlog(&a[1], &lines) {
            Some(b) => println!("ANSWER {}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>()),
            None => println!("ANSWER err"),
        },
        _ => println!("ANSWER {:?}", probe::go(&a[1], &a[2], &a[3], &lines)),
    }
}
