
// appended to the copied sync_sender.rs: reaches what is private there
pub mod probe {
    use super::*;
    use crate::sync::sync::*;
    use crate::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
    use crate::writer::{compression::CompressionType, encoding::TSEncoding, TSDataType};
    use thrift::transport::TBufferChannel;

    type Sender = SyncSender<TBinaryInputProtocol<TFramedReadTransport<ReadHalf<TTcpChannel>>>, TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>>;

    fn schema(lines: &[String]) -> Schema<'_> {
        let mut devs: Vec<(&str, Vec<Vec<&str>>)> = vec![];
        for l in lines {
            let p: Vec<&str> = l.split_whitespace().collect();
            if p.len() < 5 { continue; }
            let i = match devs.iter().position(|d| d.0 == p[0]) { Some(i) => i, None => { devs.push((p[0], vec![])); devs.len() - 1 } };
            devs[i].1.push(p[1..].to_vec());
        }
        let mut b = TsFileSchemaBuilder::new();
        for (d, ss) in devs {
            let mut db = DeviceBuilder::new();
            for s in ss {
                db.add(s[0], match s[1] { "INT32" => TSDataType::INT32, "INT64" => TSDataType::INT64, _ => TSDataType::FLOAT },
                       if s[2] == "PLAIN" { TSEncoding::PLAIN } else { TSEncoding::TS2DIFF },
                       if s[3] == "SNAPPY" { CompressionType::SNAPPY } else { CompressionType::UNCOMPRESSED });
            }
            b.add(d, db.build());
        }
        b.build()
    }
    /// the schema log, or nothing
    pub fn mlog(sg: &str, lines: &[String]) -> Option<Vec<u8>> { Sender::write_mlog(sg, schema(lines)).ok() }
    /// connect: was a sender handed out?  Then synchronise: did that succeed?
    pub fn go(addr: &str, file: &str, sg: &str, lines: &[String]) -> (bool, bool) {
        match Sender::new(addr, Some("127.0.0.1"), Some("uuid")) {
            Err(_) => (false, false),
            Ok(mut s) => (true, s.sync(file, sg, schema(lines)).is_ok()),
        }
    }
    /// is a sender handed out?
    pub fn who(addr: &str, local: Option<&str>, uuid: Option<&str>) -> bool { Sender::new(addr, local, uuid).is_ok() }
    /// reads a ConfirmInfo and prints its fields
    pub fn confirm(bytes: &[u8]) -> String {
        let mut c = TBufferChannel::with_capacity(4096, 4096);
        c.set_readable_bytes(bytes);
        let mut p = TBinaryInputProtocol::new(c, false);
        match ConfirmInfo::read_from_in_protocol(&mut p) { Ok(v) => format!("{:?}", v), Err(_) => "err".to_string() }
    }
    pub fn status(bytes: &[u8]) -> String {
        let mut c = TBufferChannel::with_capacity(4096, 4096);
        c.set_readable_bytes(bytes);
        let mut p = TBinaryInputProtocol::new(c, false);
        match SyncStatus::read_from_in_protocol(&mut p) { Ok(v) => format!("{:?}", v), Err(_) => "err".to_string() }
    }
}
