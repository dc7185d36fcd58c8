#![allow(dead_code)]
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::builder::{PartitionAddError, WiiDiscBuilder, WiiPartitionDefinition};
use disc_riider::structs::*;
use disc_riider::{Fst, FstNode, WiiIsoReader};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

pub fn parse<T>(bytes: Vec<u8>) -> T
where
    T: for<'a> binrw::BinRead<Args<'a> = ()>,
{
    Cursor::new(bytes).read_be::<T>().unwrap()
}
pub fn put(b: &mut [u8], off: usize, v: &[u8]) {
    b[off..off + v.len()].copy_from_slice(v)
}
pub fn ser<T>(v: &T) -> Vec<u8>
where
    T: for<'a> binrw::BinWrite<Args<'a> = ()>,
{
    let mut c = Cursor::new(Vec::new());
    c.write_be(v).unwrap();
    c.into_inner()
}
pub fn disc_header() -> DiscHeader {
    let mut b = vec![0u8; 0x440];
    put(&mut b, 0, b"RTEST1");
    put(&mut b, 0x18, &0x5D1C9EA3u32.to_be_bytes());
    put(&mut b, 0x20, b"a title");
    parse(b)
}
pub fn ticket_with(idx: u8) -> Ticket {
    let mut b = vec![0u8; 0x2A4];
    put(&mut b, 0, &0x10001u32.to_be_bytes());
    for i in 0..16 {
        b[0x1BF + i] = (i * 7 + 3) as u8;
    }
    put(&mut b, 0x1DC, b"TITLEID1");
    b[0x1F1] = idx;
    parse(b)
}
pub fn ticket() -> Ticket {
    ticket_with(0)
}
pub fn tmd() -> TMD {
    let mut b = vec![0u8; 0x1E4 + 36];
    put(&mut b, 0, &0x10001u32.to_be_bytes());
    for i in 4..0x104 {
        b[i] = i as u8 | 1;
    }
    put(&mut b, 0x1DE, &1u16.to_be_bytes());
    parse(b)
}
pub fn certs() -> [Certificate; 3] {
    let mut one = vec![0u8; 4 + 256 + 60 + 64 + 4 + 64 + 256 + 4 + 4 + 52];
    put(&mut one, 0, &0x10001u32.to_be_bytes());
    put(&mut one, 4 + 256 + 60 + 64, &1u32.to_be_bytes());
    parse([one.clone(), one.clone(), one].concat())
}
/// n bytes that depend on the position and the seed
pub fn pattern(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}
pub fn apploader(body: usize) -> Vec<u8> {
    let mut a = pattern(77, 32 + body);
    put(&mut a, 0x14, &(body as u32).to_be_bytes());
    put(&mut a, 0x18, &0u32.to_be_bytes());
    a
}
pub fn dol(body: usize) -> Vec<u8> {
    let mut d = vec![0u8; 0x100];
    put(&mut d, 0, &0x100u32.to_be_bytes());
    put(&mut d, 0x90, &(body as u32).to_be_bytes());
    d.extend(pattern(78, body));
    d
}
#[derive(Clone)]
pub struct Mem {
    pub files: BTreeMap<String, Vec<u8>>,
    pub bi2: Vec<u8>,
    pub apploader: Vec<u8>,
    pub dol: Vec<u8>,
    pub padding: u32,
    /// fail get_file_data of this path
    pub fail: Option<String>,
}
impl Mem {
    pub fn new(files: &[(&str, Vec<u8>)]) -> Self {
        Mem {
            files: files.iter().map(|(a, b)| (a.to_string(), b.clone())).collect(),
            bi2: pattern(1, 0x2000),
            apploader: apploader(0x123),
            dol: dol(0x777),
            padding: 0,
            fail: None,
        }
    }
}
pub type E = PartitionAddError<Infallible>;
impl WiiPartitionDefinition<Infallible> for Mem {
    fn get_disc_header(&mut self) -> Result<DiscHeader, E> {
        Ok(disc_header())
    }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, E> {
        Ok(Cow::Borrowed(&self.bi2))
    }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, E> {
        Ok(Cow::Borrowed(&self.apploader))
    }
    fn get_fst(&mut self) -> Result<Fst, E> {
        let mut f = Fst::default();
        for p in self.files.keys() {
            let (d, n) = match p.rsplit_once('/') {
                Some((d, n)) => (d, n),
                None => ("", p.as_str()),
            };
            f.add_node_path(d, FstNode::create_file(n.to_string())).unwrap();
        }
        Ok(f)
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, E> {
        Ok(Cow::Borrowed(&self.dol))
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> Result<(Cow<'a, [u8]>, u32), E> {
        let p = path.join("/");
        if self.fail.as_deref() == Some(p.as_str()) {
            return Err(io::Error::new(io::ErrorKind::Other, "file not readable").into());
        }
        Ok((Cow::Borrowed(self.files.get(&p).unwrap().as_slice()), self.padding))
    }
}
pub fn build_parts(parts: &mut [(WiiPartType, Mem)], t: Ticket) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    {
        let mut b = WiiDiscBuilder::create(&mut c, disc_header(), std::array::from_fn(|i| i as u8 + 1));
        for (ty, m) in parts {
            b.add_partition(*ty, t.clone(), tmd(), certs(), m, &mut |_| ()).unwrap();
        }
        b.finish().unwrap();
    }
    c.into_inner()
}
pub fn build(m: &mut Mem) -> Vec<u8> {
    build_parts(&mut [(WiiPartType::Data, m.clone())], ticket())
}
/// every file of the first partition, read back through the public reader
pub fn read_back(img: &[u8]) -> BTreeMap<String, Vec<u8>> {
    let mut r = WiiIsoReader::open(Cursor::new(img)).unwrap();
    let p = r.partitions()[0].clone();
    let mut part = r.open_partition(p).unwrap();
    let mut list = Vec::new();
    part.get_fst()
        .callback_all_files::<Infallible, _>(&mut |names, node| {
            if node.is_file() {
                list.push(names.join("/"));
            }
            Ok(())
        })
        .unwrap();
    let mut out = BTreeMap::new();
    for n in list {
        let mut v = Vec::new();
        part.open_file(&mut r, &n).unwrap().read_to_end(&mut v).unwrap();
        out.insert(n, v);
    }
    out
}
pub fn same(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) {
    assert_eq!(a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>());
    for (k, v) in a {
        assert!(v == &b[k], "content of {k} differs");
    }
}
pub fn be32(b: &[u8], o: usize) -> u64 {
    u32::from_be_bytes(b[o..o + 4].try_into().unwrap()) as u64
}
/// a source folder for build_from_directory below the current (scratch) directory
pub fn srcdir(root: &str, files: &[(&str, Vec<u8>)]) {
    use std::fs;
    let d = format!("{root}/DATA");
    fs::create_dir_all(format!("{d}/sys")).unwrap();
    fs::create_dir_all(format!("{d}/disc")).unwrap();
    fs::create_dir_all(format!("{d}/files")).unwrap();
    fs::write(format!("{d}/sys/boot.bin"), ser(&disc_header())).unwrap();
    fs::write(format!("{d}/sys/bi2.bin"), pattern(1, 0x2000)).unwrap();
    fs::write(format!("{d}/sys/apploader.img"), apploader(0x123)).unwrap();
    fs::write(format!("{d}/sys/main.dol"), dol(0x777)).unwrap();
    fs::write(format!("{d}/disc/region.bin"), [7u8; 32]).unwrap();
    fs::write(format!("{d}/ticket.bin"), ser(&ticket())).unwrap();
    fs::write(format!("{d}/tmd.bin"), ser(&tmd())).unwrap();
    fs::write(format!("{d}/cert.bin"), certs().iter().flat_map(|c| ser(c)).collect::<Vec<u8>>()).unwrap();
    for (n, b) in files {
        let p = format!("{d}/files/{n}");
        fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
        fs::write(p, b).unwrap();
    }
}
/// writes an image with a data partition of these files
pub fn write_image(path: &str, files: &[(&str, Vec<u8>)]) {
    std::fs::write(path, build(&mut Mem::new(files))).unwrap();
}
/// runs a Python script with the bindings in the current (scratch) directory; true on success
pub fn py(script: &str) -> bool {
    std::fs::copy(std::env::var("PYLIB").unwrap(), "disc_riider_py.so").unwrap();
    let st = std::process::Command::new("python3").args(["-c", script]).env("PYTHONPATH", ".").env("PYTHONDONTWRITEBYTECODE", "1").status().unwrap();
    st.success()
}
