"""planted bugs: source of /verif/seeded (generated by mkseed.py)"""
W, RW, NR, ST, B, F, D = ('src/window.rs', 'src/reader_writer.rs', 'src/new_reader.rs', 'src/structs.rs', 'src/builder.rs', 'src/fst.rs', 'src/dir_reader.rs')
CLI, PY = 'iso-tool/src/main.rs', 'disc-riider-py/src/lib.rs'
SEEDS = []
import os
AES = {'aes.rs': open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seedlib', 'aes.rs')).read()}


def seed(id, property, edits, needs, breaks, demo, files=None):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))


seed('window-seek-end', 'C10', [(W, '(self.start + length).saturating_add_signed(off)', '(self.start + length).saturating_add_signed(off.max(-(self.pos as i64) - 3))')],
     'a seek from the end by more than pos+3 bytes backwards',
     'seeking from the end of a limited window lands at the wrong window position',
     r'''
fn main() {
    let data: Vec<u8> = (0..100u8).collect();
    let mut w = disc_riider::IOWindow::new(std::io::Cursor::new(data), 10, Some(50));
    use std::io::*;
    assert_eq!(w.seek(SeekFrom::End(-20)).unwrap(), 30);
    let mut b = [0u8; 4];
    w.read_exact(&mut b).unwrap();
    assert_eq!(b, [40, 41, 42, 43]);
}
''')

seed('window-past-end', 'C10', [(W, '.map(|length| length.saturating_sub(self.pos) as usize)', '.map(|length| length.wrapping_sub(self.pos) as usize)')],
     'a seek behind the end of the window followed by a read',
     'reading behind the end of a window returns source bytes that do not belong to it',
     r"""
fn main() {
    let data: Vec<u8> = (0..100u8).collect();
    let mut w = disc_riider::IOWindow::new(std::io::Cursor::new(data), 10, Some(50));
    use std::io::*;
    w.seek(SeekFrom::Start(60)).unwrap();
    let mut b = [0u8; 15];
    assert!(w.read(&mut b).map_or(true, |n| n == 0), "read {:?} past the window", b);
}
""")

seed('seal-pad', 'C08', [(RW, 'ptr0[h0.len()..][..0x14].copy_from_slice(&[0; 0x14]);', 'ptr0[h0.len()..][..0x10].copy_from_slice(&[0; 0x10]);')],
     'a group that is loaded again after it was written (its hash area then holds old encrypted bytes)',
     'the padding behind the sector digests of a rewritten group is not zero',
     r'''
// decrypts a hash area by reading it through a partition whose data area is made of it is not possible with the
// public API, so the raw group is decrypted here with a tiny AES via the builder's own determinism:
// two images with the same content, one whose first group is loaded again, must be identical
fn main() {
    // the group 0 is rewritten at the end (FST, header) after other groups were written
    let mut m = Mem::new(&[("a.bin", pattern(5, 3 * 0x1F0000)), ("b.bin", pattern(6, 0x1000))]);
    let img = build(&mut m);
    // the last group is written once, its residue is deterministic; check every block of group 0 against group 0 of
    // an independent computation: H0 digest of block content is covered by H1; verify tree through sha1 of decrypted data
    let key = ticket().title_key;
    let base = 0x50000 + 0x20000;
    for blk in 0..64 {
        let enc = &img[base + blk * 0x8000..][..0x400];
        let hdr = aes::cbc_decrypt(&key, &[0; 16], enc);
        assert!(hdr[0x26C..0x280].iter().all(|b| *b == 0), "padding of block {blk}");
        assert!(hdr[0x320..0x340].iter().all(|b| *b == 0));
        assert!(hdr[0x3E0..0x400].iter().all(|b| *b == 0));
    }
}
mod aes;
''', AES)

seed('write-h3slot', 'C07', [(RW, '''                                        h3[20 * current_group as usize..][..20]
                                            .as_mut()''', '''                                        h3[20 * group.min(current_group + 1).saturating_sub(1) as usize..][..20]
                                            .as_mut()''')],
     'leaving a group for one that is not its successor (the rewrite of the first group after later groups were written)',
     'the digest of the group left is stored in the slot of another group',
     r'''
use sha1::{Digest, Sha1};
fn main() {
    let mut m = Mem::new(&[("a.bin", pattern(5, 2 * 0x1F0000 + 7)), ("b.bin", pattern(6, 0x1000))]);
    let img = build(&mut m);
    let part = 0x50000;
    let h3 = &img[part + 0x8000..][..0x18000];
    let key = ticket().title_key;
    let groups = (img.len() - part - 0x20000) / 0x200000;
    assert_eq!(groups, 3);
    for g in 0..groups {
        let enc = &img[part + 0x20000 + g * 0x200000..][..0x400];
        let hdr = aes::cbc_decrypt(&key, &[0; 16], enc);
        let d = Sha1::digest(&hdr[0x340..0x3E0]);
        assert_eq!(&d[..], &h3[g * 20..g * 20 + 20], "slot of group {g}");
    }
}
mod aes;
''', AES)

seed('read-load-early', 'C09', [(NR, '''        self.current_group = None;
        rs.seek(SeekFrom::Start(self.data_offset + group * GROUP_SIZE))?;
        rs.read_exact(self.group_cache.as_mut())?;
        self.current_group = Some(group);
''', '''        self.current_group = None;
        rs.seek(SeekFrom::Start(self.data_offset + group * GROUP_SIZE))?;
        self.current_group = Some(group);
        rs.read_exact(self.group_cache.as_mut())?;
''')],
     'a source read error while a group is being loaded, then a retry',
     'after a failed load the half-filled memory is served as the group',
     r'''
use std::io::*;
struct Flaky { c: Cursor<Vec<u8>>, fail_at: u64, armed: bool }
impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let p = self.c.position();
        if self.armed && p >= self.fail_at { self.armed = false; return Err(Error::new(ErrorKind::Other, "bad sector")); }
        let n = if self.armed { b.len().min((self.fail_at - p) as usize) } else { b.len() };
        self.c.read(&mut b[..n])
    }
}
impl Seek for Flaky { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.c.seek(p) } }
fn main() {
    let content = pattern(5, 2 * 0x1F0000);
    let mut m = Mem::new(&[("a.bin", content.clone())]);
    let img = build(&mut m);
    let f = Flaky { c: Cursor::new(img), fail_at: 0x50000 + 0x20000 + 0x200000 + 0x123450, armed: false };
    let mut r = disc_riider::WiiIsoReader::open(f).unwrap();
    let p = r.partitions()[0].clone();
    let mut part = r.open_partition(p).unwrap();
    let off = match part.get_fst().find_node_path("a.bin").unwrap() { disc_riider::FstNode::File { offset, .. } => *offset, _ => panic!() };
    let mut v = Vec::new();
    r.file.armed = true;
    assert!(part.get_crypto_reader(&mut r).read_into_vec(off, content.len() as u64, &mut v).is_err());
    match part.get_crypto_reader(&mut r).read_into_vec(0x1F0000 + 16, 0x1E0000, &mut v) {
        Ok(()) => assert!(v[..] == content[0x1F0010 - off as usize..][..0x1E0000], "retry returned wrong data"),
        Err(_) => (),
    }
}
''')

seed('build-pad-order', 'C14', [(B, 'align_next(current_position + padding as u64, 0x40)', 'align_next(current_position, 0x40) + padding as u64')],
     'files that ask for additional padding that is not a multiple of 0x40',
     'the following files are not placed on 0x40 boundaries (and offsets that are no multiple of 4 are recorded wrongly)',
     r'''
fn main() {
    let mut m = Mem::new(&[("a.bin", pattern(5, 0x101)), ("b.bin", pattern(6, 0x1000)), ("c.bin", pattern(7, 0x77))]);
    m.padding = 0x1E;
    let img = build(&mut m);
    same(&m.files, &read_back(&img));
    let mut r = disc_riider::WiiIsoReader::open(std::io::Cursor::new(&img[..])).unwrap();
    let p = r.partitions()[0].clone();
    let part = r.open_partition(p).unwrap();
    for n in m.files.keys() {
        match part.get_fst().find_node_path(n).unwrap() { disc_riider::FstNode::File { offset, .. } => assert_eq!(offset % 0x40, 0, "{n}"), _ => panic!() };
    }
}
''')

seed('build-fst-stale', 'C14', [(B, '''        fst.write_to(&mut crypto_writer)?;

        // write partition header''', '''        if processed_file_bytes == total_bytes {
            fst.write_to(&mut crypto_writer)?;
        }

        // write partition header''')],
     'a partition definition that announces sizes which differ from the data it delivers',
     'the table written before the files (placeholder offsets) stays in the image',
     r'''
struct Sized(Mem);
use disc_riider::*;
use std::borrow::Cow;
impl disc_riider::builder::WiiPartitionDefinition<std::convert::Infallible> for Sized {
    fn get_disc_header(&mut self) -> Result<structs::DiscHeader, E> { self.0.get_disc_header() }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, E> { self.0.get_bi2() }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, E> { self.0.get_apploader() }
    fn get_fst(&mut self) -> Result<Fst, E> {
        let mut f = Fst::default();
        for p in self.0.files.keys() {
            f.add_node_path("", FstNode::File { name: p.clone(), offset: 0, length: 10 }).unwrap();
        }
        Ok(f)
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, E> { self.0.get_dol() }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> Result<(Cow<'a, [u8]>, u32), E> { self.0.get_file_data(path) }
}
fn main() {
    let m = Mem::new(&[("a.bin", pattern(5, 0x101)), ("b.bin", pattern(6, 0x1000))]);
    let files = m.files.clone();
    let mut c = std::io::Cursor::new(Vec::new());
    {
        let mut b = disc_riider::builder::WiiDiscBuilder::create(&mut c, disc_header(), [0; 32]);
        b.add_partition(structs::WiiPartType::Data, ticket(), tmd(), certs(), &mut Sized(m), &mut |_| ()).unwrap();
        b.finish().unwrap();
    }
    same(&files, &read_back(&c.into_inner()));
}
''')

seed('build-next-offset', 'C15', [(B, '+= 0x20000 /* encrypted data off */ + total_encrypted_size', '+= 0x20000 /* encrypted data off */ + total_size')],
     'an image with two partitions',
     'the second partition starts inside the last encrypted group of the first one and overwrites it',
     r'''
use disc_riider::structs::WiiPartType;
fn main() {
    let a = Mem::new(&[("a.bin", pattern(5, 4 * 0x1F0000 - 0x10000))]);
    let b = Mem::new(&[("b.bin", pattern(6, 0x1000))]);
    let img = build_parts(&mut [(WiiPartType::Data, a.clone()), (WiiPartType::Update, b)], ticket());
    same(&a.files, &read_back(&img));
}
''')

seed('build-count', 'C15', [(B, 'in self.partitions.iter()', 'in self.partitions.iter().take(3)')],
     'an image with more than three partitions',
     'the fourth partition is counted but its entry is not written',
     r'''
use disc_riider::structs::WiiPartType;
fn main() {
    let m = Mem::new(&[("a.bin", pattern(5, 0x10))]);
    let img = build_parts(&mut [(WiiPartType::Data, m.clone()), (WiiPartType::Update, m.clone()), (WiiPartType::Channel, m.clone()), (WiiPartType::Data, m.clone())], ticket());
    let r = disc_riider::WiiIsoReader::open(std::io::Cursor::new(&img[..])).unwrap();
    let offs: Vec<u64> = r.partitions().iter().map(|p| p.get_offset()).collect();
    assert_eq!(offs, [0x50000, 0x270000, 0x490000, 0x6B0000]);
}
''')

seed('tmd-size-late', 'C16', [(B, '''        // replace content size
        tmd_buf[0x1EC..][..8].copy_from_slice(&total_size.to_be_bytes());
''', ''), (B, '''        partition_window.seek(SeekFrom::Start(*part_header.tmd_off))?;
''', '''        // replace content size
        tmd_buf[0x1EC..][..8].copy_from_slice(&total_size.to_be_bytes());
        partition_window.seek(SeekFrom::Start(*part_header.tmd_off))?;
''')],
     'metadata whose content size differs from the built size (every rebuild that changes the size)',
     'the stored metadata no longer hashes to a value starting with zero',
     r'''
use sha1::{Digest, Sha1};
fn main() {
    for n in 1..=6usize {
        let mut m = Mem::new(&[("a.bin", pattern(n as u64, n * 0x1F0000))]);
        let img = build(&mut m);
        let p = 0x50000;
        let off = (be32(&img, p + 0x2A8) << 2) as usize;
        let len = be32(&img, p + 0x2A4) as usize;
        let t = &img[p + off..][..len];
        assert_eq!(Sha1::digest(&t[0x140..])[0], 0, "fake signature for {n} groups");
        assert_eq!(&t[0x1F4..0x208], &Sha1::digest(&img[p + 0x8000..][..0x18000])[..]);
    }
}
''')

seed('tmd-h3-part', 'C16', [(B, 'hasher.update(h3.as_ref());', 'hasher.update(&h3[..(20 * groups as usize).next_multiple_of(0x6000).min(h3.len())]);')],
     'every image with fewer than 3687 groups, when the content digest is verified',
     'the content digest covers only the used part of the global hash table',
     r'''
use sha1::{Digest, Sha1};
fn main() {
    let mut m = Mem::new(&[("a.bin", pattern(3, 0x2000))]);
    let img = build(&mut m);
    let p = 0x50000;
    let off = (be32(&img, p + 0x2A8) << 2) as usize;
    let t = &img[p + off..];
    assert_eq!(&t[0x1F4..0x208], &Sha1::digest(&img[p + 0x8000..][..0x18000])[..]);
}
''')

seed('tmd-field-width', 'C17', [(ST, '''    pub title_type: u32,
    pub group_id: u16,
    // used to cal''', '''    pub title_type: u32,
    #[brw(little)]
    pub group_id: u16,
    // used to cal''')],
     'metadata whose group id is not symmetric in its bytes',
     'the group id of the title metadata is read and written little-endian, consistently on both sides but not as the format has it',
     r'''
fn main() {
    let mut t = tmd();
    t.group_id = 0x3041;
    let b = ser(&t);
    assert_eq!(&b[0x198..0x19A], &[0x30, 0x41]);
}
''')

seed('cert-off-align', 'C17', [(B, '''            align_next(*part_header.tmd_off + part_header.tmd_size as u64, 0x20).into();
        partition_window.seek(SeekFrom::Start(*part_header.cert_chain_off))?;''', '''            align_next(*part_header.tmd_off + part_header.tmd_size as u64, 0x20).into();
        partition_window.seek(SeekFrom::Start(
            *part_header.tmd_off + align_next(part_header.tmd_size as u64, 0x40),
        ))?;''')],
     'title metadata whose size modulo 0x40 lies in 1..=0x20 (the recorded offset is only aligned to 0x20)',
     'the certificate chain is not at the offset recorded for it',
     r'''
use disc_riider::structs::*;
fn main() {
    for n in 1..6usize {
        let mut t = tmd();
        let c = t.contents[0].clone();
        t.contents = vec![c; n];
        let mut m = Mem::new(&[("a.bin", pattern(3, 0x2000))]);
        let mut c = std::io::Cursor::new(Vec::new());
        {
            let mut b = disc_riider::builder::WiiDiscBuilder::create(&mut c, disc_header(), [0; 32]);
            b.add_partition(WiiPartType::Data, ticket(), t, certs(), &mut m, &mut |_| ()).unwrap();
            b.finish().unwrap();
        }
        let img = c.into_inner();
        let p = 0x50000;
        let off = (be32(&img, p + 0x2B0) << 2) as usize;
        let want: Vec<u8> = certs().iter().flat_map(|c| ser(c)).collect();
        assert_eq!(be32(&img, p + 0x2AC) as usize, want.len(), "recorded size with {n} contents");
        assert!(img[p + off..][..want.len()] == want[..], "certificates with {n} contents");
    }
}
''')

seed('dangling-skip', 'C01', [(D, '''        let metadata = fs::metadata(&path)?;
''', '''        let metadata = match fs::metadata(&path) {
            Ok(metadata) => metadata,
            // deleted while we were listing the directory
            Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
            Err(e) => return Err(e.into()),
        };
''')],
     'an entry of the source folder whose metadata cannot be read because its target is missing (dangling link)',
     'the rebuild succeeds although an entry of the source folder could not be examined',
     r'''
use disc_riider::*;
use std::io::*;
fn main() {
    srcdir("src", &[("a.bin", pattern(3, 0x200)), ("d/b.bin", pattern(4, 0x200))]);
    let mut c = Cursor::new(Vec::new());
    disc_riider::builder::build_from_directory("src".as_ref(), &mut c, &mut |_| ()).unwrap();
    std::os::unix::fs::symlink("gone.bin", "src/DATA/files/d/link.bin").unwrap();
    let mut c = Cursor::new(Vec::new());
    assert!(disc_riider::builder::build_from_directory("src".as_ref(), &mut c, &mut |_| ()).is_err());
}
''')

seed('extract-buffered', 'C01', [(NR, '''            let mut f = File::create(sys_folder.join(filename))?;
            f.write_all(data)?;
            f.flush()?;
            Ok(())''', '''            let mut f = io::BufWriter::new(File::create(sys_folder.join(filename))?);
            f.write_all(data)?;
            Ok(())''')],
     'a write that fails (full disk) for a system file smaller than the write buffer',
     'extraction of the system files reports success although a file could not be written',
     r'''
use disc_riider::*;
use std::io::*;
fn main() {
    let mut m = Mem::new(&[("a.bin", pattern(3, 0x200))]);
    let img = build(&mut m);
    let mut r = WiiIsoReader::open(Cursor::new(img)).unwrap();
    let p = r.partitions()[0].clone();
    let mut part = r.open_partition(p).unwrap();
    part.extract_system_files("ok".as_ref(), &mut r).unwrap();
    assert_eq!(std::fs::read("ok/sys/main.dol").unwrap(), m.dol);
    std::fs::create_dir_all("full/sys").unwrap();
    std::os::unix::fs::symlink("/dev/full", "full/sys/main.dol").unwrap();
    assert!(part.extract_system_files("full".as_ref(), &mut r).is_err());
}
''')

seed('sjis-dirs', 'C01', [(F, '''        if error {
            return Err(FstToBytesError''', '''        if error && node.is_file() {
            return Err(FstToBytesError''')],
     'a directory whose name cannot be encoded in Shift JIS',
     'building the file system table succeeds with a mangled directory name',
     r'''
use disc_riider::*;
use std::io::*;
fn main() {
    let mut f = Fst::default();
    f.add_node_path("plain", FstNode::create_file("x".into())).unwrap();
    disc_riider::FstToBytes::try_from(f.clone()).map(drop).unwrap();
    f.add_node_path("gr\u{1F600}n/sub", FstNode::create_file("y".into())).unwrap();
    assert!(disc_riider::FstToBytes::try_from(f).is_err());
}
''')

seed('remove-nested-swap', 'C13', [(F, '''                    return Some(files.remove(idx));''', '''                    return Some(files.swap_remove(idx));''')],
     'removing an entry below a directory that has at least two entries behind it',
     'the siblings of a removed entry are no longer sorted, so a later insertion creates a second entry of the same name',
     r'''
use disc_riider::*;
fn main() {
    let mut f = Fst::default();
    for n in ["a", "b", "c", "d"] {
        f.add_node_path("dir", FstNode::create_file(n.into())).unwrap();
    }
    assert_eq!(f.remove_node_path("dir/a").unwrap().get_name(), "a");
    let FstNode::Directory { files, .. } = f.find_node_path("dir").unwrap() else { panic!() };
    let names: Vec<_> = files.iter().map(|n| n.get_name().as_str()).collect();
    assert_eq!(names, ["b", "c", "d"]);
}
''')

seed('order-upper', 'C13', [(F, '''        .bytes()
        .map(|b| b.to_ascii_lowercase())''', '''        .bytes()
        .map(|b| b.to_ascii_uppercase())'''), (F, '.zip(s2.bytes().map(|b| b.to_ascii_lowercase())', '.zip(s2.bytes().map(|b| b.to_ascii_uppercase())')],
     'names that differ in a letter and one of the characters between Z and a',
     'siblings are not sorted by their lower-case names',
     r'''
use disc_riider::*;
fn main() {
    let mut f = Fst::default();
    for n in ["stage_a", "stagea", "stage1", "STAGE_B"] {
        f.add_node_path("", FstNode::create_file(n.into())).unwrap();
    }
    let names: Vec<_> = f.get_entries().iter().map(|n| n.get_name().as_str()).collect();
    assert_eq!(names, ["stage1", "stage_a", "STAGE_B", "stagea"]);
}
''')

seed('walk-stale-case', 'C12', [(F, 'if saved_name != node.get_name() {', 'if !saved_name.eq_ignore_ascii_case(node.get_name()) {')],
     'a callback that changes only the letter case of a directory name',
     'the entries below a renamed directory are visited with its old name',
     r'''
use disc_riider::*;
fn main() {
    let mut f = Fst::default();
    f.add_node_path("Dir", FstNode::create_file("x".into())).unwrap();
    let mut seen = Vec::new();
    f.callback_all_files_mut::<std::convert::Infallible, _>(&mut |names, node| {
        seen.push(names.join("/"));
        if let FstNode::Directory { name, .. } = node {
            name.make_ascii_uppercase();
        }
        Ok(())
    }).unwrap();
    assert_eq!(seen, ["Dir", "DIR/x"]);
}
''')

seed('folder-case-dup', 'C22', [(D, '''                Ok(None)
            ) {''', '''                Ok(_)
            ) {''')],
     'two files of one folder whose names differ only in letter case',
     'one of the two files is silently left out of the image',
     r'''
fn main() {
    srcdir("src", &[("a.bin", vec![1; 10]), ("b.bin", vec![2; 20])]);
    disc_riider::builder::build_from_directory("src".as_ref(), &mut std::io::Cursor::new(Vec::new()), &mut |_| ()).unwrap();
    srcdir("src2", &[("a.bin", vec![1; 10]), ("A.BIN", vec![2; 20])]);
    assert!(disc_riider::builder::build_from_directory("src2".as_ref(), &mut std::io::Cursor::new(Vec::new()), &mut |_| ()).is_err());
}
''')

seed('getter-keeps', 'C20', [(B, '''        self.buf.clear();
        let mut f = try_open(fs_path)?;
''', '''        let mut f = try_open(fs_path)?;
        let size = f.metadata()?.len();
        if size != 0 {
            self.buf.clear();
        }
''')],
     'an empty file that is not the first one',
     'an empty file of the source folder gets the content of the file before it',
     r'''
fn main() {
    srcdir("src", &[("a.bin", pattern(3, 100)), ("b.bin", vec![]), ("c.bin", pattern(4, 50))]);
    let mut c = std::io::Cursor::new(Vec::new());
    disc_riider::builder::build_from_directory("src".as_ref(), &mut c, &mut |_| ()).unwrap();
    let got = read_back(&c.into_inner());
    assert_eq!(got["b.bin"].len(), 0);
    assert_eq!(got["c.bin"], pattern(4, 50));
}
''')

seed('cli-trunc-once', 'C21', [(CLI, '''                .truncate(true)
''', '''                .truncate(dest_file.metadata().map_or(true, |m| m.len() > 0x1_0000_0000))
''')],
     'rebuilding over an existing longer image',
     'bytes of the old destination file stay in the rebuilt image',
     r'''
fn main() {
    srcdir("src", &[("a.bin", pattern(3, 100))]);
    let tool = std::env::var("ISO_TOOL").unwrap();
    let run = |d: &str| assert!(std::process::Command::new(&tool).args(["rebuild", "src", d]).output().unwrap().status.success());
    run("one.iso");
    std::fs::write("two.iso", vec![0xEE; 0x600000]).unwrap();
    run("two.iso");
    assert!(std::fs::read("one.iso").unwrap() == std::fs::read("two.iso").unwrap());
}
''')

seed('py-region-once', 'C18', [(PY, 'fs::write(section_path_disk.join("region.bin"), region)?;', '''let region_path = section_path_disk.join("region.bin");
            if region.iter().any(|b| *b != 0) {
                fs::write(region_path, region)?;
            }''')],
     'an image whose region data is all zero',
     'what extraction leaves behind cannot be rebuilt: disc/region.bin is missing',
     r'''
fn main() {
    let mut img = build(&mut Mem::new(&[("a.bin", pattern(3, 100))]));
    img[0x4E000..0x4E020].fill(0);
    std::fs::write("in.iso", &img).unwrap();
    assert!(py("
import disc_riider_py as d
e = d.WiiIsoExtractor('in.iso')
e.prepare_extract_section('DATA')
e.extract_to('out', lambda p: None)
d.rebuild_from_directory('out', 'again.iso', lambda p: None)
"));
}
''')

seed('py-section-case', 'C19', [(PY, '''    pub fn get_dol_hash(&mut self, mut section: String) -> PyResult<[u8; 20]> {
        section.make_ascii_uppercase();''', '''    pub fn get_dol_hash(&mut self, mut section: String) -> PyResult<[u8; 20]> {
        section.truncate(section.trim_end().len());''')],
     'a section name that is not in upper case',
     'get_dol_hash does not find a section that was prepared under the same name',
     r'''
fn main() {
    write_image("in.iso", &[("a.bin", pattern(3, 100))]);
    assert!(py("
import disc_riider_py as d
e = d.WiiIsoExtractor('in.iso')
e.prepare_extract_section('data')
assert e.get_dol_hash('DATA') == e.get_dol_hash('data')
"));
}
''')

seed('filter-empty-dirs', 'C23', [(PY, '''                        dirstack.pop();
                        true
''', '''                        dirstack.pop();
                        !files.is_empty() || dirstack.is_empty()
''')],
     'a nested directory all of whose files are selected (or that was empty to begin with)',
     'filtering also drops directories, which the callback was never asked about, so the names asked about afterwards change with the table written from it',
     r'''
fn main() {
    write_image("in.iso", &[("d/sub/a.bin", pattern(3, 100)), ("d/z.bin", pattern(4, 10))]);
    // the tree of a section is printed by test_print
    std::fs::write("s.py", "
import disc_riider_py as d
e = d.WiiIsoExtractor('in.iso')
e.prepare_extract_section('DATA')
e.remove_files_by_callback('DATA', lambda p: p == 'd/sub/a.bin')
e.test_print()
").unwrap();
    std::fs::copy(std::env::var("PYLIB").unwrap(), "disc_riider_py.so").unwrap();
    let o = std::process::Command::new("python3").args(["s.py"]).env("PYTHONPATH", ".").output().unwrap();
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    assert!(o.status.success() && t.contains("[\"d\", \"sub\"]") && !t.contains("a.bin") && t.contains("z.bin"), "{t}");
}
''')

seed('py-backslash', 'C04', [(PY, '''                            filepath.push(name);
''', '''                            filepath.push(name.replace('\\\\', "/"));
''')],
     'a file name in the image with backslashes and dots in it',
     'extraction writes outside the destination folder',
     r'''
fn main() {
    write_image("in.iso", &[("d/..\\..\\..\\..\\escaped.bin", pattern(3, 100)), ("z.bin", pattern(4, 10))]);
    std::fs::create_dir_all("deep/out").unwrap();
    py("
import disc_riider_py as d
e = d.WiiIsoExtractor('in.iso')
e.prepare_extract_section('DATA')
try:
    e.extract_to('deep/out', lambda p: None)
except Exception:
    pass
");
    fn walk(p: &std::path::Path) -> bool {
        std::fs::read_dir(p).unwrap().any(|e| {
            let e = e.unwrap().path();
            if e.is_dir() { e != std::path::Path::new("./deep/out") && walk(&e) } else { e.ends_with("escaped.bin") }
        })
    }
    assert!(!walk(".".as_ref()), "a file was written outside of the destination");
}
''')

seed('py-short-region', 'C02', [(B, 'f.read_exact(&mut region)?;', '''let mut filled = 0;
        while filled < region.len() {
            let count = f.read(&mut region[filled..])?;
            if count == 0 {
                break;
            }
            filled += count;
        }''')],
     'a region file that is shorter than the region data',
     'a truncated region.bin is built in as if it were complete, padded with zeros',
     r'''
fn main() {
    srcdir("src", &[("a.bin", pattern(3, 100))]);
    disc_riider::builder::build_from_directory("src".as_ref(), &mut std::io::Cursor::new(Vec::new()), &mut |_| ()).unwrap();
    std::fs::write("src/DATA/disc/region.bin", [7u8; 20]).unwrap();
    assert!(disc_riider::builder::build_from_directory("src".as_ref(), &mut std::io::Cursor::new(Vec::new()), &mut |_| ()).is_err());
}
''')

FSTHEAD = r'''
use disc_riider::{Fst, FstNode, FstToBytes};
fn file(n: &str, offset: u64, length: u32) -> FstNode {
    FstNode::File { name: n.into(), offset, length }
}
fn dir(n: &str, files: Vec<FstNode>) -> FstNode {
    FstNode::Directory { name: n.into(), files }
}
fn table(entries: Vec<FstNode>) -> Vec<u8> {
    let mut f = Fst::new();
    *f.get_entries_mut() = entries;
    let mut c = std::io::Cursor::new(Vec::new());
    FstToBytes::try_from(f).unwrap().write_to(&mut c).unwrap();
    c.into_inner()
}
'''

seed('fst-empty-dir-end', 'C11', [(F, '''                    Self::build_node_bytes_rec(files, str_offsets, raw_nodes, idx);
                    // this index is always inbounds, but this way it doesn't introduce a panicking branch
                    if let Some(node) = raw_nodes.get_mut(this_idx) {
                        node.length = *idx;
                    }
''', '''                    Self::build_node_bytes_rec(files, str_offsets, raw_nodes, idx);
                    // this index is always inbounds, but this way it doesn't introduce a panicking branch
                    if let Some(node) = raw_nodes.get_mut(this_idx) {
                        if files.iter().any(|f| f.is_file()) {
                            node.length = *idx;
                        } else {
                            node.length = this_idx as u32 + 1 + files.len() as u32;
                        }
                    }
''')],
     'a folder that holds only folders, which themselves hold files',
     'the end index of such a folder counts only its direct children',
     FSTHEAD + r'''
fn main() {
    let t = table(vec![dir("a", vec![dir("b", vec![file("x", 0x40, 1), file("y", 0x80, 2)])]), file("z", 0xC0, 3)]);
    let ends: Vec<u64> = (0..6).map(|i| be32(&t, i * 12 + 8)).collect();
    assert_eq!(ends, [6, 5, 5, 1, 2, 3]);
}
''')

seed('fst-parent-sibling', 'C11', [(F, '''                        offset: parent_idx,
                        length: u32::MAX,''', '''                        offset: (this_idx as u32).wrapping_sub(1),
                        length: u32::MAX,''')],
     'a folder that is not the first child of its parent',
     'the parent index of such a folder names the entry before it',
     FSTHEAD + r'''
fn main() {
    let t = table(vec![dir("a", vec![file("x", 0x40, 1), dir("b", vec![])]), dir("c", vec![])]);
    // root, a, x, b, c
    assert_eq!(be32(&t, 3 * 12 + 4), 1);
    assert_eq!(be32(&t, 4 * 12 + 4), 0);
}
''')

seed('fst-offset-4g', 'C11', [(F, '''                        offset: (offset >> 2) as u32,''', '''                        offset: (offset as u32) >> 2,''')],
     'a file stored more than 4 GiB into the partition',
     'the offset of such a file is cut to 32 bits before it is divided by four',
     FSTHEAD + r'''
fn main() {
    let t = table(vec![file("x", 0x1_4000_0040, 9)]);
    assert_eq!(be32(&t, 12 + 4) * 4, 0x1_4000_0040);
    assert_eq!(be32(&t, 12 + 8), 9);
    let f = Fst::read(&mut std::io::Cursor::new(t), 0).unwrap();
    assert!(matches!(f.find_node_path("x"), Some(FstNode::File { offset: 0x1_4000_0040, length: 9, .. })));
}
''')

seed('read-seek-cur', 'C05', [(NR, '''            SeekFrom::Current(off) => self.crypt_part_state.current_position as i64 + off,''',
      '''            SeekFrom::Current(off) => i64::from(self.crypt_part_state.current_position as u32) + off,''')],
     'a relative seek while the position is beyond 4 GiB of a partition',
     'the reader ends up 4 GiB before the place asked for',
     r'''
use disc_riider::WiiIsoReader;
use disc_riider::structs::WiiPartType;
use std::io::*;
fn main() {
    let img = build(&mut Mem::new(&[("a.bin", pattern(3, 100))]));
    let mut r = WiiIsoReader::open(Cursor::new(img)).unwrap();
    let part = r.partitions().iter().find(|p| p.get_type() == WiiPartType::Data).unwrap().clone();
    let mut p = r.open_partition(part).unwrap();
    let mut c = p.get_crypto_reader(&mut r);
    assert_eq!(c.seek(SeekFrom::Start(0x1_2000_0000)).unwrap(), 0x1_2000_0000);
    assert_eq!(c.seek(SeekFrom::Current(-0x10)).unwrap(), 0x1_1FFF_FFF0);
    let mut b = [0u8; 4];
    assert_eq!(c.read(&mut b).unwrap(), 0);
}
''')

seed('read-short-count', 'C05', [(NR, '''                // read at most one group
                break;
            }
        }
        Ok(read_bytes as usize)''', '''                // read at most one group
                break;
            }
        }
        Ok((read_bytes as usize).min((GROUP_DATA_SIZE - BLOCK_DATA_SIZE) as usize))''')],
     'one read call of nearly a whole group (almost 2 MiB) that starts at the beginning of a group',
     'the count returned is less than the bytes delivered and the distance the position moved',
     r'''
use disc_riider::WiiIsoReader;
use disc_riider::structs::WiiPartType;
use std::io::*;
fn main() {
    let img = build(&mut Mem::new(&[("a.bin", pattern(3, 3 * 0x1F0000))]));
    let mut r = WiiIsoReader::open(Cursor::new(img)).unwrap();
    let part = r.partitions().iter().find(|p| p.get_type() == WiiPartType::Data).unwrap().clone();
    let mut p = r.open_partition(part).unwrap();
    let mut whole = vec![];
    let mut c = p.get_crypto_reader(&mut r);
    c.read_into_vec(0, 2 * 0x1F0000, &mut whole).unwrap();
    let mut got = vec![0u8; 2 * 0x1F0000];
    c.seek(SeekFrom::Start(0)).unwrap();
    c.read_exact(&mut got).unwrap();
    assert!(got == whole);
}
''')

seed('write-pos-span', 'C06', [(RW, '''                self.inner.current_position += bytes_written;
                Ok(bytes_written as usize)''', '''                self.inner.current_position += bytes_written.min(GROUP_DATA_SIZE);
                Ok(bytes_written as usize)''')],
     'one write call with more than a whole group of data (a boot program of more than 2 MiB)',
     'the position moves less far than what was written, so the next write overwrites its end',
     r'''
fn main() {
    let mut m = Mem::new(&[("a.bin", pattern(3, 100))]);
    m.dol = dol(2 * 0x1F0000 + 0x1234);
    let img = build(&mut m);
    let mut r = disc_riider::WiiIsoReader::open(std::io::Cursor::new(img)).unwrap();
    let part = r.partitions().iter().find(|p| p.get_type() == disc_riider::structs::WiiPartType::Data).unwrap().clone();
    let mut p = r.open_partition(part).unwrap();
    let mut got = vec![];
    let off = *p.get_encrypted_header().dol_off;
    p.get_crypto_reader(&mut r).read_into_vec(off, m.dol.len() as u64, &mut got).unwrap();
    assert!(got == m.dol);
}
''')

seed('write-last-block', 'C06', [(RW, '''                let mut group = self.inner.current_position / GROUP_DATA_SIZE;
                let mut block = (self.inner.current_position % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
                let mut offset_in_block =
                    BLOCK_DATA_OFFSET''', '''                let mut group = (self.inner.current_position + 0x40) / GROUP_DATA_SIZE;
                let mut block = (self.inner.current_position % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
                let mut offset_in_block =
                    BLOCK_DATA_OFFSET''')],
     'a write that starts in the last 64 bytes of a group (after a file of suitable length)',
     'the end of the group and everything after it go into the wrong group',
     r'''
fn main() {
    let mut m = Mem::new(&[("a.bin", pattern(3, 100)), ("b.bin", pattern(4, 0x5000))]);
    // find where the first file starts, then let it end in the last bytes of the first group
    let img = build(&mut m);
    let mut r = disc_riider::WiiIsoReader::open(std::io::Cursor::new(img)).unwrap();
    let part = r.partitions().iter().find(|p| p.get_type() == disc_riider::structs::WiiPartType::Data).unwrap().clone();
    let p = r.open_partition(part).unwrap();
    let start = match p.get_fst().find_node_path("a.bin") {
        Some(&disc_riider::FstNode::File { offset, .. }) => offset as usize,
        _ => panic!(),
    };
    let mut m = Mem::new(&[("a.bin", pattern(3, 0x1F0000 - 0x40 - start)), ("b.bin", pattern(4, 0x5000))]);
    let img = build(&mut m);
    same(&read_back(&img), &m.files);
}
''')

seed('crash-dol-sizes', 'C03', [(NR, '.reduce(|accum, item| accum.saturating_add(item))', '.reduce(|accum, item| accum + item)')],
     'an executable header whose section sizes add up to more than 4 GiB',
     'reading the executable of a malformed image panics instead of reporting an error',
     r'''
fn main() {
    let mut m = Mem::new(&[("a.bin", pattern(3, 100))]);
    m.dol = dol(0x400);
    for i in 0..3 {
        put(&mut m.dol, 0x90 + 4 * i, &0xF000_0000u32.to_be_bytes());
    }
    // built through the raw stream so that the header on the disc is the malformed one
    let img = build(&mut m);
    let mut r = disc_riider::WiiIsoReader::open(std::io::Cursor::new(img)).unwrap();
    let part = r.partitions().iter().find(|p| p.get_type() == disc_riider::structs::WiiPartType::Data).unwrap().clone();
    let mut p = r.open_partition(part).unwrap();
    assert!(p.read_dol(&mut r).is_err());
}
''')

seed('crash-part-count', 'C03', [(ST, '''            r.seek(SeekFrom::Start(offset))?;
            for _ in 0..part_count {''', '''            r.seek(SeekFrom::Start(offset))?;
            parts.reserve_exact(part_count as usize * parts.len().max(1));
            for _ in 0..part_count {''')],
     'a second partition group that claims billions of entries',
     'opening the image allocates whatever the image says and aborts',
     r'''
fn main() {
    let mut img = build(&mut Mem::new(&[("a.bin", pattern(3, 100))]));
    // the first group has partitions; the second one claims 2^32-1, pointing at the same list which runs out at the end of the data
    put(&mut img, 0x40008, &0xFFFF_FFFFu32.to_be_bytes());
    put(&mut img, 0x4000C, &(0x50000u32 >> 2).to_be_bytes());
    let img = img[..0x50100].to_vec();
    // with an address space of 16 GiB
    extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }
    unsafe { setrlimit(9, &[16u64 << 30, 16u64 << 30]); }
    assert!(disc_riider::WiiIsoReader::open(std::io::Cursor::new(img)).is_err());
}
''')

seed('crash-name', 'C03', [(F, '''    let (res, _, err) = SHIFT_JIS.decode(&null_str);
    if err {''', '''    let (res, _, err) = SHIFT_JIS.decode(&null_str);
    if err && null_str.len() == 1 {
        panic!("{}", invalid_fst(offset));
    }
    if err {''')],
     'a file name of a single byte that is not valid Shift-JIS',
     'parsing the file table of a malformed image panics instead of reporting an error',
     r'''
fn main() {
    let mut t = vec![1u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2];
    t.extend_from_slice(&[0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 4]);
    for name in [&[0x82u8][..], &[0x61, 0x82][..], &[0xFF, 0xFF][..]] {
        let mut b = t.clone();
        b.extend_from_slice(name);
        b.push(0);
        assert!(disc_riider::Fst::read(&mut std::io::Cursor::new(b), 0).is_err());
    }
}
''')

seed('crash-empty-table', 'C03', [(F, "if !root_node.is_directory || root_node.offset != 0 || root_node.length == 0 {", "if !root_node.is_directory || root_node.offset != 0 || (root_node.length == 0 && root_node.name_offset == 0) {")],
     'a root entry with a name offset that claims zero entries',
     'the file table of a malformed image makes the reader panic',
     r'''
fn main() {
    for off in [0u8, 7] {
        let mut t = vec![1u8, 0, 0, off, 0, 0, 0, 0, 0, 0, 0, 0];
        t.extend_from_slice(&[0; 64]);
        assert!(disc_riider::Fst::read(&mut std::io::Cursor::new(t), 0).is_err());
    }
}
''')


seed('load-kind', 'C09', [(NR, '''        rs.read_exact(self.group_cache.as_mut())?;
        self.current_group = Some(group);
''', '''        self.current_group = Some(group);
        if let Err(e) = rs.read_exact(self.group_cache.as_mut()) {
            if e.kind() == io::ErrorKind::UnexpectedEof {
                self.current_group = None;
            }
            return Err(e);
        }
''')],
     'a read error other than the end of the file while a group is being loaded, then a retry',
     'after such an error the half-filled memory is served as the group',
     next(s for s in SEEDS if s['id'] == 'read-load-early')['demo'])

seed('section-trim', 'C19', [(ST, 'match s.to_ascii_uppercase().as_str() {', 'match s.trim().to_ascii_uppercase().as_str() {')],
     'a section name with white space around it',
     'a name that is none of the three is accepted by the library',
     r'''
use disc_riider::structs::WiiPartType;
fn main() {
    assert_eq!(WiiPartType::try_from_str("update"), Some(WiiPartType::Update));
    assert_eq!(WiiPartType::try_from_str(" data\n"), None);
}
''')

seed('filter-lower', 'C23', [(PY, 'let path = dirstack.join("/");', 'let path = dirstack.join("/").to_ascii_lowercase();')],
     'a file whose path has capital letters, and a callback that looks at them',
     'the callback is not asked with the path of the file',
     r'''
fn main() {
    write_image("in.iso", &[("Dir/A.bin", pattern(3, 100)), ("z.bin", pattern(4, 10))]);
    std::fs::write("s.py", "
import disc_riider_py as d
e = d.WiiIsoExtractor('in.iso')
e.prepare_extract_section('DATA')
asked = []
e.remove_files_by_callback('DATA', lambda p: asked.append(p))
assert asked == ['Dir/A.bin', 'z.bin'], asked
").unwrap();
    std::fs::copy(std::env::var("PYLIB").unwrap(), "disc_riider_py.so").unwrap();
    let o = std::process::Command::new("python3").args(["s.py"]).env("PYTHONPATH", ".").output().unwrap();
    assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
}
''')

seed('boot-outer', 'C18', [(NR, 'f.write_be(&self.encrypted_header)?;', 'f.write_be(reader.get_header())?;')],
     'an image whose disc header differs from the header of the extracted partition',
     'boot.bin of the extracted folder holds the header of the disc instead of that of the partition',
     r'''
fn main() {
    let mut m = Mem::new(&[("a.bin", pattern(3, 100))]);
    let img = build(&mut m);
    let mut r = disc_riider::WiiIsoReader::open(std::io::Cursor::new(img)).unwrap();
    let p = r.partitions()[0].clone();
    let mut part = r.open_partition(p).unwrap();
    part.extract_system_files("out".as_ref(), &mut r).unwrap();
    let boot = std::fs::read("out/sys/boot.bin").unwrap();
    assert_eq!(boot, ser(part.get_encrypted_header()));
}
''')

seed('walk-deep', 'C12', [(F, '''            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec(f, files, vec)?;
                }
                FstNode::File { .. } => {}
            }''', '''            match node {
                // paths longer than the preallocated stack are not supported by the console
                FstNode::Directory { files, .. } if vec.len() < vec.capacity().min(20) => {
                    Self::callback_all_files_rec(f, files, vec)?;
                }
                _ => {}
            }''')],
     'directories nested twenty deep',
     'entries below the twentieth level are never visited (and so never extracted)',
     r'''
use disc_riider::*;
fn main() {
    for depth in [3, 19, 20, 25] {
        let mut f = Fst::default();
        let path: Vec<String> = (0..depth).map(|i| format!("d{i}")).collect();
        f.add_node_path(&path.join("/"), FstNode::create_file("x".into())).unwrap();
        let mut n = 0;
        f.callback_all_files::<std::convert::Infallible, _>(&mut |_, _| { n += 1; Ok(()) }).unwrap();
        assert_eq!(n, depth + 1);
    }
}
''')

seed('vec-clear-zero', 'C20', [(NR, '        buffer.clear();\n', '        if length > 0 {\n            buffer.clear();\n        }\n')],
     'an empty file read into a buffer that was used before',
     'the buffer still holds the previous file when an empty one is read',
     r'''
fn main() {
    let mut m = Mem::new(&[("a.bin", pattern(3, 100)), ("b.bin", vec![])]);
    let img = build(&mut m);
    let mut r = disc_riider::WiiIsoReader::open(std::io::Cursor::new(img)).unwrap();
    let p = r.partitions()[0].clone();
    let mut part = r.open_partition(p).unwrap();
    let mut buf = Vec::new();
    for (name, want) in [("a.bin", 100), ("b.bin", 0)] {
        let (off, len) = match part.get_fst().find_node_path(name).unwrap() { disc_riider::FstNode::File { offset, length, .. } => (*offset, *length as u64), _ => panic!() };
        part.get_crypto_reader(&mut r).read_into_vec(off, len, &mut buf).unwrap();
        assert_eq!(buf.len(), want, "{name}");
    }
}
''')

seed('folder-depth', 'C22', [(D, '            build_fst_from_directory_tree_rec(&path, dirs, fst)?;', '            if dirs.len() < 16 {\n                build_fst_from_directory_tree_rec(&path, dirs, fst)?;\n            }')],
     'a source folder with files sixteen directories deep',
     'files in deep directories are silently left out of the image',
     r'''
fn main() {
    for depth in [2usize, 15, 16, 18] {
        let name = (0..depth).map(|i| format!("d{i}/")).collect::<String>() + "x.bin";
        let dir = format!("src{depth}");
        srcdir(&dir, &[(&name, vec![1; 10])]);
        let mut c = std::io::Cursor::new(Vec::new());
        if disc_riider::builder::build_from_directory(dir.as_ref(), &mut c, &mut |_| ()).is_ok() {
            assert!(read_back(&c.into_inner()).contains_key(&name), "{name} is missing");
        }
    }
}
''')

seed('header-user-swap', 'C17', [(ST, '''    pub user_position: u32,
    #[brw(pad_after(4))]
    pub user_sz: u32,''', '''    pub user_sz: u32,
    #[brw(pad_after(4))]
    pub user_position: u32,''')],
     'a disc header with different user position and user size, looked at field by field',
     'two fields of the disc header change places in reading and writing alike',
     r'''
fn main() {
    let mut b = ser(&disc_header());
    put(&mut b, 0x434, &[1, 2, 3, 4]);
    put(&mut b, 0x438, &[5, 6, 7, 8]);
    let h: disc_riider::structs::DiscHeader = parse(b.clone());
    assert_eq!((h.user_position, h.user_sz), (0x01020304, 0x05060708));
    assert_eq!(ser(&h), b);
}
''')

seed('window-4g', 'C10', [(W, '.map(|length| length.saturating_sub(self.pos) as usize)', '.map(|length| length.saturating_sub(self.pos) as u32 as usize)')],
     'a window longer than 4 GiB with a multiple of 4 GiB left',
     'a read that fits is refused or cut short',
     r'''
use std::io::*;
struct Zeros(u64);
impl Read for Zeros { fn read(&mut self, b: &mut [u8]) -> Result<usize> { b.fill(0); self.0 += b.len() as u64; Ok(b.len()) } }
impl Seek for Zeros { fn seek(&mut self, p: SeekFrom) -> Result<u64> { if let SeekFrom::Start(o) = p { self.0 = o; Ok(o) } else { Err(ErrorKind::Unsupported.into()) } } }
fn main() {
    let mut w = disc_riider::IOWindow::new(Zeros(0), 100, Some(6 << 30));
    let mut b = [0u8; 16];
    for pos in [0u64, 1 << 30, 2 << 30, (2 << 30) + 5, (6 << 30) - 16] {
        w.seek(SeekFrom::Start(pos)).unwrap();
        assert_eq!(w.read(&mut b).unwrap(), 16, "at {pos:#x}");
        w.seek(SeekFrom::Start(pos)).unwrap();
        w.read_exact(&mut b).unwrap();
    }
}
''')
