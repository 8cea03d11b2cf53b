// Runs a script of writer calls against /repo's crate. Script lines:
//   s DEV MEAS TYPE ENC COMP      declare a series
//   deg N | bloom RATE            configuration
//   sink N [FAILAT]               sink accepting at most N bytes per write, failing at byte FAILAT
//   failop K                      the K-th call on the sink (write or flush) fails, once; the last line is then: ops N
//   file                          write to a file by name instead of to a sink
//   open                          create the writer
//   w DEV MEAS T TYPE VALUE       write
//   g DEV MEAS T0 N STEP TYPE SEED  N points, pseudo random values
//   m DEV T [MEAS TYPE VALUE]*    write_many
//   close
// Prints one line per call: ok | err | panic; bulk lines print the number of oks.
use std::cell::RefCell;
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::ts_file_config::TsFileConfig;
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::{IoTDBValue, PositionedWrite, TSDataType};

struct Sink { out: Rc<RefCell<Vec<u8>>>, max: usize, fail: Option<usize>, failop: Option<usize>, ops: Rc<RefCell<usize>> }
impl Sink {
    fn op(&mut self) -> io::Result<()> {
        let mut k = self.ops.borrow_mut();
        *k += 1;
        if Some(*k - 1) == self.failop { Err(io::Error::new(io::ErrorKind::Other, "sink failed")) } else { Ok(()) }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.op()?;
        let mut o = self.out.borrow_mut();
        let mut n = b.len().min(self.max);
        if let Some(f) = self.fail {
            if o.len() >= f && n > 0 { return Err(io::Error::new(io::ErrorKind::Other, "sink full")); }
            n = n.min(f - o.len().min(f));
        }
        o.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { self.op() }
}
impl PositionedWrite for Sink {
    fn get_position(&self) -> u64 { self.out.borrow().len() as u64 }
}
fn ty(s: &str) -> TSDataType { match s { "INT32" => TSDataType::INT32, "INT64" => TSDataType::INT64, _ => TSDataType::FLOAT } }
fn val(t: &str, v: &str) -> IoTDBValue {
    match t { "INT32" => IoTDBValue::INT(v.parse().unwrap()), "INT64" => IoTDBValue::LONG(v.parse().unwrap()),
              "DOUBLE" => IoTDBValue::DOUBLE(v.parse().unwrap()), _ => IoTDBValue::FLOAT(v.parse().unwrap()) }
}
pub fn rnd(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i.wrapping_mul(0xD1B54A32D192ED03));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn gval(t: &str, seed: u64, i: u64) -> IoTDBValue {
    let z = rnd(seed, i);
    match t { "INT32" => IoTDBValue::INT(z as u32 as i32), "INT64" => IoTDBValue::LONG(z as i64),
              _ => IoTDBValue::FLOAT(((z % 20001) as f32) - 10000.0) }
}
fn main() {
    let path = std::env::args().nth(1).unwrap();
    let lines: Vec<String> = io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let mut devs: Vec<(String, Vec<(String, String, String, String)>)> = vec![];
    let mut cfg = TsFileConfig::default();
    let (mut max, mut fail, mut tofile) = (usize::MAX, None, false);
    let mut failop = None;
    let ops = Rc::new(RefCell::new(0));
    let out = Rc::new(RefCell::new(Vec::new()));
    std::panic::set_hook(Box::new(|_| {}));
    let mut it = 0;
    while lines[it] != "open" {
        let p: Vec<&str> = lines[it].split_whitespace().collect();
        it += 1;
        if p.is_empty() { continue; }
        match p[0] {
            "s" => {
                let i = match devs.iter().position(|d| d.0 == p[1]) { Some(i) => i, None => { devs.push((p[1].to_string(), vec![])); devs.len() - 1 } };
                devs[i].1.push((p[2].into(), p[3].into(), p[4].into(), p[5].into()));
            }
            "file" => tofile = true,
            "deg" => cfg.max_degree_of_index_node = p[1].parse().unwrap(),
            "bloom" => cfg.bloom_filter_error_rate = p[1].parse().unwrap(),
            "failop" => failop = Some(p[1].parse().unwrap()),
            "sink" => { max = p[1].parse().unwrap(); fail = p.get(2).map(|x| x.parse().unwrap()); }
            _ => {}
        }
    }
    let mut b = TsFileSchemaBuilder::new();
    for (d, ss) in devs.iter() {
        let mut db = DeviceBuilder::new();
        for (s, t, e, c) in ss.iter() {
            db.add(s.as_str(), ty(t), if e == "PLAIN" { TSEncoding::PLAIN } else { TSEncoding::TS2DIFF },
                   if c == "SNAPPY" { CompressionType::SNAPPY } else { CompressionType::UNCOMPRESSED });
        }
        b.add(d.as_str(), db.build());
    }
    let schema = b.build();
    if tofile {
        let w = catch_unwind(AssertUnwindSafe(|| TsFileWriter::new(&path, schema, cfg)));
        match w { Ok(Ok(w)) => { println!("ok"); run(w, &lines[it + 1..]) } Ok(Err(_)) => println!("err"), Err(_) => println!("panic") }
        return;
    }
    let w = catch_unwind(AssertUnwindSafe(|| TsFileWriter::new_from_writer(schema, Sink { out: out.clone(), max, fail, failop, ops: ops.clone() }, cfg)));
    match w { Ok(Ok(w)) => { println!("ok"); run(w, &lines[it + 1..]) } Ok(Err(_)) => println!("err"), Err(_) => println!("panic") }
    if failop.is_some() { println!("ops {}", ops.borrow()); }
    std::fs::write(&path, &*out.borrow()).unwrap();
}
fn run<'a, T: PositionedWrite>(mut w: TsFileWriter<'a, T>, lines: &'a [String]) {
    for l in lines {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.is_empty() { continue; }
        let r = catch_unwind(AssertUnwindSafe(|| match p[0] {
            "w" => w.write(p[1], p[2], p[3].parse().unwrap(), val(p[4], p[5])).map(|_| "ok".to_string()),
            "g" => {
                let (t0, n, st, sd): (i64, u64, i64, u64) = (p[3].parse().unwrap(), p[4].parse().unwrap(), p[5].parse().unwrap(), p[7].parse().unwrap());
                let mut k = 0;
                for i in 0..n { if w.write(p[1], p[2], t0 + i as i64 * st, gval(p[6], sd, i)).is_ok() { k += 1; } }
                Ok(k.to_string())
            }
            "m" => {
                let mut v = vec![];
                let mut i = 3;
                while i + 2 < p.len() { v.push(DataPoint::new(p[i], val(p[i + 1], p[i + 2]))); i += 3; }
                w.write_many(p[1], p[2].parse().unwrap(), v).map(|_| "ok".to_string())
            }
            _ => w.close().map(|_| "ok".to_string()),
        }));
        match r { Ok(Ok(s)) => println!("{}", s), Ok(Err(_)) => println!("err"), Err(_) => println!("panic") }
    }
}
