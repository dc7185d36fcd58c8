"""Edits used while developing the checks: bugs (must be caught) and behaviour-preserving rewrites (must stay quiet)."""
M = []


def bug(id, props, *edits):
    M.append(dict(id=id, kind='bug', props=props.split(), edits=edits))


def ok(id, checks, *edits):
    M.append(dict(id=id, kind='ok', checks=checks.split() or None, edits=edits))


W = 'src/window.rs'
RW = 'src/reader_writer.rs'
bug('w-read-nolimit', 'C10', (W, '''            let new_len = bytes_left.min(buf.len());
            buf = &mut buf[..new_len];''', '''            let new_len = bytes_left.max(1).min(buf.len());
            buf = &mut buf[..new_len];'''))
bug('w-seek-end', 'C10', (W, '(self.start + length).saturating_add_signed(off)', '(self.start + length).saturating_add_signed(-off)'))
bug('w-needs-seek', 'C10', (W, '''                .map(drop)
''', '''                .map(drop)?;
            self.needs_seek = false;
            Ok(())
'''), (W, '''        })?;
        self.pos = position''', '''        })?;
        self.needs_seek = false;
        self.pos = position'''))
# correct: keeps the source in step (needs_seek false only while standing at the window position) - not safe, source may be moved outside; but window-local
ok('w-len-helper', 'C10', (W, '''        if let Some(bytes_left) = self.bytes_left() {
            if bytes_left < buf.len() {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
        }
        self.ensure_seeked()?;''', '''        let fits = match self.bytes_left() {
            Some(left) => buf.len() <= left,
            None => true,
        };
        if !fits {
            return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "window"));
        }
        self.ensure_seeked()?;'''))
ok('w-seek-rewrite', 'C10', (W, '''        let position = self.source.seek(match pos {
            SeekFrom::Current(off) => {
                SeekFrom::Start((self.start + self.pos).saturating_add_signed(off))
            }
            SeekFrom::End(off) => {
                if let Some(length) = self.length {
                    SeekFrom::Start((self.start + length).saturating_add_signed(off))
                } else {
                    return Err(io::ErrorKind::Unsupported.into());
                }
            }
            SeekFrom::Start(off) => SeekFrom::Start(self.start + off),
        })?;
        self.pos = position.saturating_sub(self.start);
        Ok(self.pos)''', '''        let (base, off) = match pos {
            SeekFrom::Current(off) => (self.start + self.pos, off),
            SeekFrom::End(off) => match self.length {
                Some(length) => (self.start + length, off),
                None => return Err(io::ErrorKind::Unsupported.into()),
            },
            SeekFrom::Start(off) => (self.start + off, 0),
        };
        let position = self.source.seek(SeekFrom::Start(base.saturating_add_signed(off)))?;
        self.pos = position.saturating_sub(self.start);
        Ok(self.pos)'''))
bug('w-adv', 'C10', (W, 'self.pos += amt as u64;\n                Ok(amt)', 'if amt > 0x4000 { self.pos += 0x4000; } else { self.pos += amt as u64; }\n                Ok(amt)'))

NR = 'src/new_reader.rs'
bug('g-write-blockwrap', 'C06', (RW, '''                    block += 1;
                    if block == 64 {
                        block = 0;
                        group += 1;
                    }
                    offset_in_block = BLOCK_DATA_OFFSET;''', '''                    block += 1;
                    if block > 64 {
                        block = 0;
                        group += 1;
                    }
                    offset_in_block = BLOCK_DATA_OFFSET;'''))
bug('g-write-hdr', 'C06', (RW, 'offset_in_block = BLOCK_DATA_OFFSET;', 'offset_in_block = 0;'))
bug('g-write-adv', 'C06', (RW, '''                    bytes_written += bytes_to_copy;
                    block += 1;''', '''                    bytes_written += bytes_to_copy;
                    self.inner.current_position += bytes_to_copy & 1;
                    block += 1;'''))
bug('g-flush-nodirty', 'C07', (RW, 'self.file.flush()?;\n                        self.inner.current_group = None;', 'self.file.flush()?;\n                        self.inner.is_dirty = false;\n                        self.inner.current_group = None;'))
M[-1]['kind'] = 'ok'
M[-1]['checks'] = ['C06', 'C07', 'C09']
bug('g-write-nofilled', 'C07 C06', (RW, '''                                self.inner.filled_groups =
                                    self.inner.filled_groups.max(current_group + 1);''', '''                                self.inner.filled_groups = current_group + 1;'''))
bug('g-write-fgmissing', 'C07 C06', (RW, '''                                self.inner.filled_groups =
                                    self.inner.filled_groups.max(current_group + 1);''', ''))
bug('g-write-h3slot', 'C07', (RW, '''                                        h3[20 * current_group as usize..][..20]
                                            .as_mut()''', '''                                        h3[20 * group as usize..][..20]
                                            .as_mut()'''))
bug('g-write-pos', 'C07', (RW, '''                                self.file.seek(SeekFrom::Start(
                                    self.inner.data_offset + GROUP_SIZE * current_group,
                                ))?;''', '''                                self.file.seek(SeekFrom::Start(
                                    self.inner.data_offset + GROUP_SIZE * group,
                                ))?;'''))
bug('g-dirty-lost', 'C07', (RW, '''                    self.inner.current_group = Some(group);
                    self.inner.is_dirty = true;''', '''                    if self.inner.current_group != Some(group) {
                        self.inner.is_dirty = true;
                    }
                    self.inner.current_group = Some(group);'''))
bug('g-load-filled', 'C06', (RW, '|| group >= self.inner.filled_groups)', '|| group + 1 >= self.inner.filled_groups)'))
bug('g-load-early', 'C09', (RW, '''        self.inner.current_group = None;
        self.file''', '''        self.inner.current_group = Some(group);
        self.file'''))
bug('g-skip-load', 'C06', (RW, '&& offset_in_block == 0x400\n', ''))
ok('g-writeback-helper', 'C06 C07 C09', (RW, '''                        if let Some(current_group) = self.inner.current_group {
                            if self.inner.is_dirty {
                                hash_encrypt_block(
                                    &mut self.inner.group_cache,
                                    self.inner.h3.as_mut().map(|h3| {
                                        h3[20 * current_group as usize..][..20]
                                            .as_mut()
                                            .try_into()
                                            .unwrap()
                                    }),
                                    &self.inner.encryption_key,
                                );
                                self.file.seek(SeekFrom::Start(
                                    self.inner.data_offset + GROUP_SIZE * current_group,
                                ))?;
                                self.file.write_all(self.inner.group_cache.as_ref())?;
                                self.inner.filled_groups =
                                    self.inner.filled_groups.max(current_group + 1);
                            }
                        }''', '''                        self.write_back()?;'''), (RW, '''                if let Some(current_group) = self.inner.current_group {
                    if self.inner.is_dirty {
                        hash_encrypt_block(
                            &mut self.inner.group_cache,
                            self.inner.h3.as_mut().map(|h3| {
                                h3[20 * current_group as usize..][..20]
                                    .as_mut()
                                    .try_into()
                                    .unwrap()
                            }),
                            &self.inner.encryption_key,
                        );
                        self.file.seek(SeekFrom::Start(
                            self.inner.data_offset + GROUP_SIZE * current_group,
                        ))?;
                        self.file.write_all(self.inner.group_cache.as_ref())?;
                        self.inner.filled_groups = self.inner.filled_groups.max(current_group + 1);
                        self.file.flush()?;''', '''                if self.inner.current_group.is_some() {
                    if self.inner.is_dirty {
                        self.write_back()?;
                        self.file.flush()?;'''), (RW, '''impl<'a, RS: Read + Seek> Read for WiiEncryptedReadWriteStream<'a, RS> {''', '''impl<'a, RS: Write + Read + Seek> WiiEncryptedReadWriteStream<'a, RS> {
    fn write_back(&mut self) -> io::Result<()> {
        let Some(current_group) = self.inner.current_group else { return Ok(()) };
        if !self.inner.is_dirty { return Ok(()); }
        let slot = 20 * current_group as usize;
        let digest: Option<&mut [u8; 20]> = match self.inner.h3.as_mut() {
            Some(h3) => Some((&mut h3[slot..slot + 20]).try_into().unwrap()),
            None => None,
        };
        hash_encrypt_block(&mut self.inner.group_cache, digest, &self.inner.encryption_key);
        let at = self.inner.data_offset + GROUP_SIZE * current_group;
        self.file.seek(SeekFrom::Start(at))?;
        self.file.write_all(&self.inner.group_cache[..])?;
        if self.inner.filled_groups < current_group + 1 {
            self.inner.filled_groups = current_group + 1;
        }
        Ok(())
    }
}

impl<'a, RS: Read + Seek> Read for WiiEncryptedReadWriteStream<'a, RS> {'''))
ok('g-write-loop', 'C06 C07 C09', (RW, '''                while !buf.is_empty() {
                    if max_group.map_or(false, |g| g <= group) {
                        // we are above the limit
                        break;
                    }''', '''                loop {
                    if buf.len() == 0 { break; }
                    match max_group { Some(g) if g <= group => break, _ => {} }'''),
   (RW, '''                    block += 1;
                    if block == 64 {
                        block = 0;
                        group += 1;
                    }
                    offset_in_block = BLOCK_DATA_OFFSET;''', '''                    offset_in_block = BLOCK_DATA_OFFSET;
                    if block + 1 < 64 { block += 1 } else { block = 0; group += 1; }'''))
ST = 'src/structs.rs'
bug('k-pad', 'C08', (RW, 'ptr0[h0.len()..][..0x14].copy_from_slice(&[0; 0x14]);', 'ptr0[h0.len()..][..0x10].copy_from_slice(&[0; 0x10]);'))
bug('k-iv', 'C08', (RW, 'ptr0[0x3D0..][..16].into())', 'ptr0[0x3C0..][..16].into())'))
bug('k-h2late', 'C08', (RW, '''    hasher.update(&h2);
    if let''', '''    hasher.update(&h2[..20 * 7]);
    if let'''))
bug('k-key', 'C08', (NR, 'for block in 0..64 {', 'for block in 0..63 {'))
bug('k-ivr', 'C08', (NR, 'block_data[0x3d0..][..0x10]', 'block_data[0x3e0..][..0x10]'))
bug('k-title', 'C08', (ST, '''    let mut encrypted = [0; 16];
    let mut iv = [0u8; 0x10];
    iv[..8]''', '''    let mut encrypted = [0; 16];
    let mut iv = [0u8; 0x10];
    iv[8..]'''))
ok('k-refactor', 'C08 C07', (RW, '''        for c in 0..8 {
            let ptr0 = &mut ptr1[c * 0x8000..];
            ptr0[0x280..][..h1.len()].copy_from_slice(&h1);
            ptr0[0x320..][..0x20].copy_from_slice(&[0; 0x20]);
        }''', '''        for ptr0 in ptr1.chunks_exact_mut(0x8000).take(8) {
            ptr0[0x280..0x280 + 160].copy_from_slice(&h1);
            ptr0[0x320..0x340].fill(0);
        }'''), (NR, '''        for block in 0..64 {
            let block_data =
                &mut self.group_cache[(block * BLOCK_SIZE) as usize..][..BLOCK_SIZE as usize];
            let crypto = Aes128CbcDec::new(
                self.encryption_key.as_ref().into(),
                block_data[0x3d0..][..0x10].as_ref().into(),
            );
            crypto
                .decrypt_padded_mut::<NoPadding>(&mut block_data[BLOCK_DATA_OFFSET as usize..])
                // TODO: can bad data cause a panic here?
                .unwrap();
        }''', '''        for block_data in self.group_cache.chunks_exact_mut(BLOCK_SIZE as usize) {
            let (hashes, data) = block_data.split_at_mut(BLOCK_DATA_OFFSET as usize);
            let iv: [u8; 16] = hashes[0x3d0..0x3e0].try_into().unwrap();
            Aes128CbcDec::new(&self.encryption_key.into(), &iv.into())
                .decrypt_padded_mut::<NoPadding>(data)
                .unwrap();
        }'''))
ok('k-iterc', 'C08 C07', (RW, '''            for j in 0..31 {
                hasher.update(&ptr0[(j + 1) * 0x400..][..0x400]);
                h0[j * 20..][..20].copy_from_slice(&hasher.finalize_reset());
            }
            hasher.update(&h0);
            h1''', '''            let mut j = 0;
            while j < 31 {
                let start = (j + 1) * 0x400;
                let digest = Sha1::digest(&ptr0[start..start + 0x400]);
                h0[j * 20..(j + 1) * 20].copy_from_slice(&digest);
                j += 1;
            }
            hasher.update(&h0);
            h1'''))
bug('w-wrapsub', 'C10', (W, '.map(|length| length.saturating_sub(self.pos) as usize)', '.map(|length| length.wrapping_sub(self.pos) as usize)'))
bug('w-plainsub', 'C10', (W, '.map(|length| length.saturating_sub(self.pos) as usize)', '.map(|length| (length - self.pos) as usize)'))
ok('w-guardsub', 'C10', (W, '.map(|length| length.saturating_sub(self.pos) as usize)', '.map(|length| if self.pos < length { (length - self.pos) as usize } else { 0 })'))
ok('w-checkedsub', 'C10', (W, '.map(|length| length.saturating_sub(self.pos) as usize)', '.map(|length| length.checked_sub(self.pos).unwrap_or(0) as usize)'))

B = 'src/builder.rs'
ST = 'src/structs.rs'
NR = 'src/new_reader.rs'
# ---- C14
bug('b-off-late', 'C14', (B, '''            *offset = crypto_writer.stream_position()?;
            let (data, padding)''', '''            let (data, padding)'''), (B, '''            const ZEROS: [u8; 0x40] = [0; 0x40];
            let mut current''', '''            *offset = crypto_writer.stream_position()? - (*size as u64 & !0x3f);
            const ZEROS: [u8; 0x40] = [0; 0x40];
            let mut current'''))
bug('b-nopad', 'C14', (B, '''align_next(current_position + padding as u64, 0x40)''', '''align_next(current_position, 0x40) + padding as u64'''))
bug('b-align20', 'C14', (B, '''align_next(current_position + padding as u64, 0x40)''', '''align_next(current_position + padding as u64, 0x20)'''))
bug('b-fst-noseek', 'C14', (B, '''        // data is written, write the fst properly now
        crypto_writer.seek(SeekFrom::Start(*part_disc_header.fst_off))?;
''', '''        // data is written, write the fst properly now
        crypto_writer.seek(SeekFrom::Start(fst_end - 4 - (*part_disc_header.fst_sz & 0x1f)))?;
'''))
bug('b-fst-norewrite', 'C14', (B, '''        fst.write_to(&mut crypto_writer)?;

        // write partition header''', '''        if uses_file_byte_progress {
            fst.write_to(&mut crypto_writer)?;
        }

        // write partition header'''))
bug('b-fstsz', 'C14', (B, '''(fst_end - *part_disc_header.fst_off).into()''', '''(fst_end - *part_disc_header.dol_off).into()'''))
bug('b-fstmax', 'C14', (B, '''        part_disc_header.fst_max_sz = part_disc_header.fst_sz;
''', '''        part_disc_header.fst_max_sz = (*part_disc_header.fst_max_sz).max(*part_disc_header.fst_sz).into();
'''))
bug('b-dolalign', 'C14', (B, '''part_disc_header.dol_off = align_next(crypto_writer.stream_position()?, 0x20).into();''', '''part_disc_header.dol_off = (crypto_writer.stream_position()? & !0x1f).into();'''))
bug('b-batch', 'C14', (B, '''let bytes_to_write = remaining_data.len().min(0x1_000_000);
                let batch;
                (batch, remaining_data) = remaining_data.split_at(bytes_to_write);''', '''let bytes_to_write = remaining_data.len().min(0x1_000_000);
                let batch = &remaining_data[..bytes_to_write];
                remaining_data = &remaining_data[(bytes_to_write + 1).min(remaining_data.len())..];'''))
bug('b-datastart', 'C14', (B, '''        let data_start = align_next(crypto_writer.stream_position()?, 0x40);
''', '''        let data_start = align_next(fst_end - 4, 0x40);
'''))
bug('b-hdr-early', 'C14', (B, '''        let mut processed_files = 0;
        let mut processed_file''', '''        crypto_writer.seek(SeekFrom::Start(0))?;
        crypto_writer.write_be(&part_disc_header)?;
        crypto_writer.seek(SeekFrom::Start(data_start))?;
        let mut processed_files = 0;
        let mut processed_file'''), (B, '''        // write partition header
        crypto_writer.seek(SeekFrom::Start(0))?;
        crypto_writer.write_be(&part_disc_header)?;
''', ''), (B, '''        part_disc_header.fst_max_sz = part_disc_header.fst_sz;

''', ''))
# ---- C15
bug('b-push-early', 'C15', (B, '''        // only list the partition once it's complete
        self.partitions.push(WiiPartTableEntry {
            part_data_off: part_data_off.into(),
            part_type,
        });
''', ''), (B, '''        // write h3
        partition''', '''        self.partitions.push(WiiPartTableEntry {
            part_data_off: part_data_off.into(),
            part_type,
        });
        // write h3
        partition'''))
bug('b-nextoff', 'C15', (B, '+= 0x20000 /* encrypted data off */ + total_encrypted_size', '+= 0x20000 /* encrypted data off */ + total_size'))
bug('b-nextoff2', 'C15', (B, '+= 0x20000 /* encrypted data off */ + total_encrypted_size', '+= total_encrypted_size'))
bug('b-groups', 'C15', (B, '(crypto_writer.stream_position()? + GROUP_DATA_SIZE - 1) / GROUP_DATA_SIZE', 'crypto_writer.stream_position()? / GROUP_DATA_SIZE'))
bug('b-entryoff', 'C15', (B, 'part_data_off: part_data_off.into()', 'part_data_off: self.current_data_offset.into()'))
bug('b-count', 'C15', (B, '(self.partitions.len() as u32)', '(self.partitions.len().max(1) as u32)'))
bug('b-skip', 'C15', (B, 'in self.partitions.iter()', 'in self.partitions.iter().take(4)'))
bug('b-rev', 'C15 ', (B, 'self.file.seek(SeekFrom::Start(0x40020))', 'self.file.seek(SeekFrom::Start(0x40024))'))
bug('b-start', 'C15', (B, 'current_data_offset: 0x50000', 'current_data_offset: 0x40000'))
# ---- C16
bug('s-hashearly', 'C16', (B, '''        let h3 = crypto_writer.take_h3().unwrap();
''', '''        let h3 = crypto_writer.take_h3().unwrap();
        tmd_buf[0x1F4..][..20].copy_from_slice(&Sha1::digest(&h3[..0x17FFF]));
'''), (B, '''        tmd_buf[0x1F4..][..20].copy_from_slice(&digest);
''', ''))
bug('s-hashpos', 'C16', (B, 'tmd_buf[0x1F4..][..20]', 'tmd_buf[0x1F0..][..20]'))
bug('s-encsize', 'C16', (B, '&total_size.to_be_bytes()', '&total_encrypted_size.to_be_bytes()'))
bug('s-le', 'C16', (B, '&total_size.to_be_bytes()', '&total_size.to_le_bytes()'))
bug('s-sigpart', 'C16', (B, '.skip(4).take(0x100)', '.take(0x100)'))
bug('s-after', 'C16', (B, '''        // replace content size
        tmd_buf[0x1EC..][..8].copy_from_slice(&total_size.to_be_bytes());
''', ''), (B, '''        partition_window.seek(SeekFrom::Start(*part_header.tmd_off))?;
''', '''        tmd_buf[0x1EC..][..8].copy_from_slice(&total_size.to_be_bytes());
        partition_window.seek(SeekFrom::Start(*part_header.tmd_off))?;
'''))
bug('s-hash1', 'C16', (B, 'if hash[0] == 0 {', 'if hash[0] <= 1 {'))
bug('s-bytes', 'C16', (B, 'hasher.update(&tmd_buf[0x140..]);', 'hasher.update(&tmd_buf[0x144..]);'))
bug('s-flushlate', 'C16 C14 C07', (B, '''        crypto_writer.flush()?;
        let h3''', '''        let h3'''))
# ---- C17
bug('l-apploader', 'C17', (B, 'SeekFrom::Start(0x2440)', 'SeekFrom::Start(0x2460)'))
bug('l-h3', 'C17', (B, 'partition_window.seek(SeekFrom::Start(0x8000))', 'partition_window.seek(SeekFrom::Start(0x8020))'))
bug('l-region', 'C17', (B, 'SeekFrom::Start(0x4E000)', 'SeekFrom::Start(0x4E020)'))
bug('l-datasize', 'C17 C16', (B, 'part_header.data_size = total_size.into()', 'part_header.data_size = total_encrypted_size.into()'))
# ---- ok
ok('b-hoist', 'C14 C15 C16 C17', (B, '''        let groups = (crypto_writer.stream_position()? + GROUP_DATA_SIZE - 1) / GROUP_DATA_SIZE;
''', '''        let end = crypto_writer.stream_position()?;
        let groups = end.div_ceil(GROUP_DATA_SIZE);
'''))
ok('b-helper', 'C14 C15 C16 C17', (B, '''        // write dol
        part_disc_header.dol_off = align_next(crypto_writer.stream_position()?, 0x20).into();
        crypto_writer.seek(SeekFrom::Start(*part_disc_header.dol_off))?;
        crypto_writer.write_all''', '''        // write dol
        fn align_stream<S: Seek>(s: &mut S, align: u64) -> io::Result<u64> {
            let pos = align_next(s.stream_position()?, align);
            s.seek(SeekFrom::Start(pos))
        }
        part_disc_header.dol_off = align_stream(&mut crypto_writer, 0x20)?.into();
        crypto_writer.write_all'''), (B, '''        let data_start = align_next(crypto_writer.stream_position()?, 0x40);
        crypto_writer.seek(SeekFrom::Start(data_start))?;
''', '''        align_stream(&mut crypto_writer, 0x40)?;
'''), (B, '''        part_disc_header.fst_off = align_next(crypto_writer.stream_position()?, 0x20).into();
        crypto_writer.seek(SeekFrom::Start(*part_disc_header.fst_off))?;
''', '''        let fst_off = align_stream(&mut crypto_writer, 0x20)?;
        part_disc_header.fst_off = fst_off.into();
'''))
ok('b-chunks', 'C14 C15 C16', (B, '''            while remaining_data.len() > 0 {
                let bytes_to_write = remaining_data.len().min(0x1_000_000);
                let batch;
                (batch, remaining_data) = remaining_data.split_at(bytes_to_write);
                crypto_writer.write_all(batch)?;
                if uses_file_byte_progress {
                    processed_file_bytes += bytes_to_write;''', '''            for batch in remaining_data.chunks(0x1_000_000) {
                crypto_writer.write_all(batch)?;
                if uses_file_byte_progress {
                    processed_file_bytes += batch.len();'''), (B, 'let mut remaining_data = data.as_ref()', 'let remaining_data = data.as_ref()'))
ok('b-zeroloop', 'C14 C15 C16', (B, '''            while current_position < next_start {
                let bytes_to_write = ((next_start - current_position) as usize).min(ZEROS.len());
                current_position += bytes_to_write as u64;
                crypto_writer.write_all(&ZEROS[..bytes_to_write])?;
            }''', '''            loop {
                if current_position >= next_start {
                    break;
                }
                let left = next_start - current_position;
                let n = if left < 0x40 { left as usize } else { 0x40 };
                crypto_writer.write_all(&ZEROS[..n])?;
                current_position += n as u64;
            }'''))
ok('s-helper', 'C16 C14 C15 C17', (B, '''        // replace content hash
        tmd_buf[0x1F4..][..20].copy_from_slice(&digest);
        // replace content size
        tmd_buf[0x1EC..][..8].copy_from_slice(&total_size.to_be_bytes());
        // zero out TMD for simpler brute force
        for b in tmd_buf.iter_mut().skip(4).take(0x100) {
            *b = 0;
        }
''', '''        fn patch(buf: &mut [u8], at: usize, data: &[u8]) {
            buf[at..at + data.len()].copy_from_slice(data);
        }
        patch(&mut tmd_buf, 0x1EC, &total_size.to_be_bytes());
        patch(&mut tmd_buf, 0x1F4, &digest);
        tmd_buf[4..0x104].fill(0);
'''))
ok('s-loop', 'C16', (B, '''        for i in 0..u64::MAX {
            tmd_buf[0x19A..][..8].copy_from_slice(&i.to_ne_bytes());
            hasher.update(&tmd_buf[0x140..]);
            let hash = hasher.finalize_reset();
            if hash[0] == 0 {
                break;
            }
        }
''', '''        let mut i = 0u64;
        loop {
            tmd_buf[0x19A..0x1A2].copy_from_slice(&i.to_ne_bytes());
            let hash = Sha1::digest(&tmd_buf[0x140..]);
            if hash[0] == 0 || i == u64::MAX {
                break;
            }
            i += 1;
        }
'''))
ok('b-finish', 'C15 C17', (B, '''        for partition in self.partitions.iter() {
            self.file.write_be(partition)?;
        }
''', '''        self.partitions.iter().try_for_each(|p| self.file.write_be(p))?;
'''), (B, '''        self.file.write_be(&(self.partitions.len() as u32))?;
        self.file.write_be(&(0x40020u32 >> 2))?;
''', '''        let count = self.partitions.len() as u32;
        self.file.write_be(&[count, 0x40020u32 >> 2])?;
'''))
ok('b-order', 'C14 C15 C16 C17', (B, '''        // write info to header
        part_header.global_hash_table_off = 0x8000.into();
        part_header.data_off = 0x20000.into();
        part_header.data_size = total_size.into();
''', ''), (B, '''        self.current_data_offset += 0x20000 /* encrypted data off */ + total_encrypted_size;
''', '''        // write info to header
        part_header.global_hash_table_off = 0x8000.into();
        part_header.data_off = 0x20000.into();
        part_header.data_size = total_size.into();
        self.current_data_offset = part_data_off + 0x20000 + total_encrypted_size;
'''))

# ---- C01 error flow
NR = 'src/new_reader.rs'
BU = 'src/builder.rs'
DR = 'src/dir_reader.rs'
PY = 'disc-riider-py/src/lib.rs'
CL = 'iso-tool/src/main.rs'
FS = 'src/fst.rs'
ST = 'src/structs.rs'
bug('e-let-underscore', 'C01', (NR, '''            f.write_all(data)?;
            f.flush()?;
            Ok(())''', '''            f.write_all(data)?;
            let _ = f.flush();
            Ok(())'''))
bug('e-ok-semi', 'C01', (BU, '''        self.file.flush()?;
        Ok(())''', '''        self.file.flush().ok();
        Ok(())'''))
bug('e-if-let-ok', 'C01', (DR, '''        let entry = entry?;
''', '''        let Ok(entry) = entry else { continue };
'''))
bug('e-if-let-ok2', 'C01', (DR, '''        let metadata = fs::metadata(&path)?;
''', '''        let metadata = match fs::metadata(&path) {
            Ok(m) => m,
            Err(_) => continue,
        };
'''))
bug('e-unwrap-or-default', 'C01', (BU, '''        let header = try_open(path)?.read_be::<DiscHeader>()?;
        Ok(header)''', '''        let header = try_open(path)?.read_be::<DiscHeader>()?;
        let _len = std::fs::metadata(self.base_dir.join("sys/boot.bin")).map(|m| m.len()).unwrap_or_default();
        Ok(header)'''))
bug('e-eof-break', 'C01', (FS, '''        for _ in 0..total_node_count {
            nodes.push(rs.read_be::<RawFstNode>()?);
        }''', '''        for _ in 0..total_node_count {
            match rs.read_be::<RawFstNode>() {
                Ok(n) => nodes.push(n),
                Err(e) if e.is_eof() => break,
                Err(e) => return Err(e),
            }
        }'''))
bug('e-filtermap-ok', 'C01', (DR, '''    for entry in fs::read_dir(path)? {
        let entry = entry?;
''', '''    for entry in fs::read_dir(path)?.filter_map(Result::ok) {
'''))
bug('e-flatten', 'C01', (DR, '''    for entry in fs::read_dir(path)? {
        let entry = entry?;
''', '''    for entry in fs::read_dir(path)?.flatten() {
'''))
bug('e-filtermap-closure', 'C01', (DR, '''    for entry in fs::read_dir(path)? {
        let entry = entry?;
''', '''    for entry in fs::read_dir(path)?.filter_map(|e| e.ok()) {
'''))
bug('e-eprintln', 'C01', (CL, '''            .map_err(|e| format!("{e:?}"))?;
        }''', '''            .unwrap_or_else(|e| eprintln!("{e:?}"));
        }'''))
bug('e-eprintln-iflet', 'C01', (CL, '''            part_reader.extract_system_files(&destination, &mut reader)?;
''', '''            if let Err(e) = part_reader.extract_system_files(&destination, &mut reader) {
                eprintln!("{e}");
            }
'''))
bug('e-bufwriter', 'C01', (NR, '''            let mut f = File::create(sys_folder.join(filename))?;
            f.write_all(data)?;
            f.flush()?;
            Ok(())''', '''            let mut f = io::BufWriter::new(File::create(sys_folder.join(filename))?);
            f.write_all(data)?;
            Ok(())'''))
bug('e-bufwriter-py', 'C01', (PY, '''    let mut f = fs::File::create(p).into_pyerr_with_path(p)?;
    f.write_be(value)''', '''    let mut f = std::io::BufWriter::new(fs::File::create(p).into_pyerr_with_path(p)?);
    f.write_be(value)'''))
bug('e-py-extract-ignore', 'C01', (PY, '''                        wii_encrypt_reader.seek(SeekFrom::Start(*offset))?;
''', '''                        let _ = wii_encrypt_reader.seek(SeekFrom::Start(*offset));
'''))
bug('e-py-walk', 'C01', (PY, '''                        if bytes_left != 0 {
                            return Err(std::io::ErrorKind::UnexpectedEof.into());
                        }
                    }

                    Ok(())
                })?;

            drop(wii_encrypt_reader);
''', '''                        if bytes_left != 0 {
                            return Err(std::io::ErrorKind::UnexpectedEof.into());
                        }
                    }

                    Ok(())
                }).ok();

            drop(wii_encrypt_reader);
'''))
bug('e-map-or', 'C01', (PY, '''                            let bytes_read =
                                wii_encrypt_reader.read(&mut buffer[..bytes_to_read])?;
''', '''                            let bytes_read = wii_encrypt_reader
                                .read(&mut buffer[..bytes_to_read])
                                .map_or(0, |n| n);
'''))
bug('e-rec-swallow', 'C01', (FS, '''            rec_build_fst_bytes(files, name_offsets, str_bytes)?;
''', '''            rec_build_fst_bytes(files, name_offsets, str_bytes).ok();
''') if False else (FS, '''                rec_build_fst_bytes(files, name_offsets, str_bytes)?;
''', '''                let _ = rec_build_fst_bytes(files, name_offsets, str_bytes);
'''))
bug('e-first-error', 'C01', (FS, '''        for node in nodes {
            vec.push(node.get_name());
            f(vec, node)?;
            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec(f, files, vec)?;
                }
                FstNode::File { .. } => {}
            }
            let _ = vec.pop();
        }
        Ok(())''', '''        let mut res = Ok(());
        for node in nodes {
            vec.push(node.get_name());
            res = f(vec, node);
            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec(f, files, vec)?;
                }
                FstNode::File { .. } => {}
            }
            let _ = vec.pop();
        }
        res'''))
bug('e-or-else', 'C01', (BU, '''        f.read_be::<TMD>()?
''', '''        f.read_be::<TMD>().or_else(|_| { f.seek(SeekFrom::Start(0))?; f.read_le::<TMD>() })?
''') if False else (BU, '''        crypto_writer.flush()?;
        let h3''', '''        if crypto_writer.flush().is_err() {
            progress_cb(0);
        }
        let h3'''))
bug('e-flush-window', 'C01', ('src/window.rs', 'self.source.flush()', 'self.source.flush().or(Ok(()))'))
ok('e-ok-match', 'C01', (NR, '''            f.write_all(data)?;
            f.flush()?;
            Ok(())''', '''            match f.write_all(data) {
                Ok(()) => (),
                Err(e) => return Err(e),
            }
            f.flush()'''))
ok('e-ok-andthen', 'C01', (NR, '''            let mut f = File::create(sys_folder.join(filename))?;
            f.write_all(data)?;
            f.flush()?;
            Ok(())''', '''            File::create(sys_folder.join(filename))
                .and_then(|mut f| f.write_all(data).and_then(|_| f.flush()))'''))
ok('e-ok-bufwriter', 'C01', (NR, '''            let mut f = File::create(sys_folder.join(filename))?;
            f.write_all(data)?;
            f.flush()?;
            Ok(())''', '''            let mut f = io::BufWriter::new(File::create(sys_folder.join(filename))?);
            f.write_all(data)?;
            f.flush()?;
            Ok(())'''))
ok('e-ok-bufwriter2', 'C01', (PY, '''    let mut f = fs::File::create(p).into_pyerr_with_path(p)?;
    f.write_be(value).into_pyerr_with_path(p)?;
    Ok(())''', '''    let mut f = std::io::BufWriter::new(fs::File::create(p).into_pyerr_with_path(p)?);
    f.write_be(value).into_pyerr_with_path(p)?;
    f.flush().into_pyerr_with_path(p)'''))
ok('e-ok-collect', 'C01', (DR, '''    for entry in fs::read_dir(path)? {
        let entry = entry?;
''', '''    let mut entries = fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;
    entries.sort_by_key(|e| e.file_name());
    for entry in entries {
'''))
ok('e-ok-later', 'C01', (FS, '''            f(vec, node)?;
            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec(f, files, vec)?;
                }
                FstNode::File { .. } => {}
            }
            let _ = vec.pop();
        }
        Ok(())
    }

    /// Allows''', '''            let mut res = f(vec, node);
            if let (Ok(()), FstNode::Directory { files, .. }) = (&res, node) {
                res = Self::callback_all_files_rec(f, files, vec);
            }
            let _ = vec.pop();
            res?;
        }
        Ok(())
    }

    /// Allows'''))
ok('e-ok-tryfold', 'C01', (FS, '''        for _ in 0..total_node_count {
            nodes.push(rs.read_be::<RawFstNode>()?);
        }''', '''        let rest: Vec<RawFstNode> = (0..total_node_count)
            .map(|_| rs.read_be::<RawFstNode>())
            .collect::<binrw::BinResult<_>>()?;
        nodes.extend(rest);'''))
ok('e-ok-letelse', 'C01', (BU, '''        let mut f = try_open(path)?;
        f.read_be::<TMD>()?''', '''        let mut f = match try_open(path) {
            Ok(f) => f,
            Err(e) => return Err(e),
        };
        let parsed = f.read_be::<TMD>();
        if let Err(e) = parsed {
            return Err(e.into());
        }
        parsed.unwrap()'''))
ok('e-ok-main', 'C01', (CL, '''            .map_err(|e| format!("{e:?}"))?;
        }''', '''            .unwrap_or_else(|e| {
                eprintln!("{e:?}");
                std::process::exit(1);
            });
        }'''))
ok('e-ok-retry', 'C01', (PY, '''                            let bytes_read =
                                wii_encrypt_reader.read(&mut buffer[..bytes_to_read])?;
''', '''                            let bytes_read = match wii_encrypt_reader.read(&mut buffer[..bytes_to_read]) {
                                Ok(n) => n,
                                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                                Err(e) => return Err(e),
                            };
'''))
ok('e-ok-tryforeach', 'C01', (BU, '''        for partition in self.partitions.iter() {
            self.file.write_be(partition)?;
        }''', '''        let file = &mut self.file;
        self.partitions.iter().try_for_each(|partition| file.write_be(partition))?;'''))
bug('e-sjis-ignore', 'C01', (FS, 'let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());\n        if error {', 'let (bytes, _, _) = SHIFT_JIS.encode(node.get_name());\n        if false {'))
bug('e-sjis-dec', 'C01', (FS, '''    let (res, _, err) = SHIFT_JIS.decode(&null_str);
    if err {''', '''    let (res, _, err) = SHIFT_JIS.decode(&null_str);
    if err && res.is_empty() {'''))
bug('e-sjis-skip', 'C01', (FS, '''        if error {
            return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
        }''', '''        if error {
            continue;
        }'''))
ok('e-ok-sjis', 'C01', (FS, '''    let (res, _, err) = SHIFT_JIS.decode(&null_str);
    if err {
        return Err(binrw::Error::Custom {
            pos: offset,
            err: Box::new(format!("invalid shiftjis: {}", res)),
        });
    }
    Ok(res.into())''', '''    let decoded = SHIFT_JIS.decode(&null_str);
    match decoded {
        (res, _, false) => Ok(res.into()),
        (res, _, true) => Err(binrw::Error::Custom {
            pos: offset,
            err: Box::new(format!("invalid shiftjis: {}", res)),
        }),
    }'''))
ok('e-ok-both', 'C01', (BU, '''        let mut f = try_open(path)?;
        self.buf.clear();
        f.read_to_end(&mut self.buf)?;
        Ok(Cow::Borrowed(&self.buf))''', '''        let f = try_open(path);
        let exists = std::fs::metadata(&self.base_dir)?;
        let _ = exists.len();
        let mut f = f?;
        self.buf.clear();
        let n = f.read_to_end(&mut self.buf)?;
        debug_assert_eq!(n, self.buf.len());
        Ok(Cow::Borrowed(&self.buf))'''))
bug('e-opt-helper', 'C01', (BU, '''fn try_open(path''', '''fn read_all(f: &mut File, buf: &mut Vec<u8>) -> Option<usize> {
    f.read_to_end(buf).ok()
}

fn try_open(path'''), (BU, '''        let mut f = try_open(fs_path)?;
        f.read_to_end(&mut self.buf)?;
''', '''        let mut f = try_open(fs_path)?;
        if let Some(n) = read_all(&mut f, &mut self.buf) {
            self.buf.truncate(n);
        }
'''))
ok('e-ok-helper', 'C01', (BU, '''fn try_open(path''', '''fn read_all(f: &mut File, buf: &mut Vec<u8>) -> Option<usize> {
    f.read_to_end(buf).ok()
}

fn try_open(path'''), (BU, '''        let mut f = try_open(fs_path)?;
        f.read_to_end(&mut self.buf)?;
''', '''        let mut f = try_open(fs_path)?;
        let Some(n) = read_all(&mut f, &mut self.buf) else {
            return Err(io::Error::new(io::ErrorKind::Other, "read").into());
        };
        self.buf.truncate(n);
'''))

# ------------------------------------------------------------------ extraction (C02, C04, C18, C20, C21)
PY = 'disc-riider-py/src/lib.rs'
GUARD = '''    let mut components = Path::new(name).components();
    matches!(
        (components.next(), components.next()),
        (Some(Component::Normal(n)), None) if n == name
    )
'''
NLOOP = '''                        for name in names {
                            if !is_plain_filename(name) {
                                return Err(std::io::Error::new(
                                    std::io::ErrorKind::InvalidData,
                                    format!("invalid file name in image: {name:?}"),
                                ));
                            }
                            filepath.push(name);
                        }
'''
BADN = '''return Err(std::io::Error::new(
                                    std::io::ErrorKind::InvalidData,
                                    format!("invalid file name in image: {name:?}"),
                                ));'''
bug('x-dd-only', 'C04', (PY, GUARD, '    let _ = Component::RootDir;\n    name != ".."\n'))
bug('x-slash-only', 'C04', (PY, GUARD, '    let _ = Component::RootDir;\n    !name.contains(\'/\')\n'))
bug('x-dd-contains', 'C04', (PY, GUARD, '    let _ = Component::RootDir;\n    !name.is_empty() && !name.contains("..")\n'))
bug('x-first-normal', 'C04', (PY, GUARD, '    matches!(Path::new(name).components().next(), Some(Component::Normal(_)))\n'))
bug('x-any-parent', 'C04', (PY, GUARD, '    !Path::new(name).components().any(|c| matches!(c, Component::ParentDir))\n'))
bug('x-removed', 'C04', (PY, NLOOP, '''                        let _ = is_plain_filename("");
                        for name in names {
                            filepath.push(name);
                        }
'''))
bug('x-last-only', 'C04', (PY, NLOOP, '''                        if let Some(name) = names.last() {
                            if !is_plain_filename(name) {
                                ''' + BADN + '''
                            }
                        }
                        for name in names {
                            filepath.push(name);
                        }
'''))
bug('x-check-late', 'C04', (PY, NLOOP, '''                        for name in names {
                            filepath.push(name);
                        }
'''), (PY, '''                        let mut outfile = fs::File::create(&filepath)?;
''', '''                        for name in names {
                            if !is_plain_filename(name) {
                                ''' + BADN + '''
                            }
                        }
                        let mut outfile = fs::File::create(&filepath)?;
'''))
bug('x-skip', 'C04', (PY, BADN, 'continue;'))
bug('x-return-ok', 'C04', (PY, BADN, 'return Ok(());'))
bug('x-collect', 'C04', (PY, NLOOP, '''                        let _ = is_plain_filename("");
                        filepath.push(names.iter().collect::<PathBuf>());
'''))
bug('x-joinstr', 'C04', (PY, NLOOP, '''                        let _ = is_plain_filename("");
                        filepath.push(names.join("/"));
'''))
bug('x-title', 'C04', (PY, '''            let section_path_disk = section_path.join("disc");
''', '''            let section_path_disk = section_path.join(disc_header.game_title.as_str()).join("disc");
'''))
bug('x-log', 'C04', (PY, '''            let section_path_disk = section_path.join("disc");
''', '''            let section_path_disk = section_path.join("disc");
            fs::write("extract.log", b"x")?;
'''))
bug('x-parent', 'C04', (PY, '''            let section_path_disk = section_path.join("disc");
''', '''            let section_path_disk = section_path.join("../../disc");
'''))
ok('xo-filename', 'C04', (PY, GUARD, '    let _ = Component::RootDir;\n    Path::new(name).file_name() == Some(std::ffi::OsStr::new(name))\n'))
ok('xo-chars', 'C04', (PY, GUARD, '    let _ = Component::RootDir;\n    !name.is_empty() && name != "." && name != ".." && !name.contains(\'/\')\n'))
ok('xo-chars2', 'C04', (PY, GUARD, '    let _ = Component::RootDir;\n    if name.is_empty() || name == "." || name == ".." { return false; }\n    !name.contains(&[\'/\', \'\\\\\'][..])\n'))
ok('xo-bytes', 'C04', (PY, GUARD, '    let _ = Component::RootDir;\n    !matches!(name, "" | "." | "..") && !name.bytes().any(|b| b == b\'/\' || b == b\'\\\\\')\n'))
ok('xo-all', 'C04', (PY, GUARD, '    Path::new(name).components().all(|c| matches!(c, Component::Normal(_)))\n'))
ok('xo-any', 'C04', (PY, GUARD, '    !Path::new(name).components().any(|c| !matches!(c, Component::Normal(_)))\n'))
ok('xo-count', 'C04', (PY, GUARD, '    let mut c = Path::new(name).components();\n    matches!(c.next(), Some(Component::Normal(_))) && c.next().is_none()\n'))
ok('xo-count2', 'C04', (PY, GUARD, '    let p = Path::new(name);\n    p.components().count() == 1 && matches!(p.components().next(), Some(Component::Normal(_)))\n'))
ok('xo-match', 'C04', (PY, GUARD, '''    let mut it = Path::new(name).components();
    let Some(first) = it.next() else {
        return false;
    };
    if it.next().is_some() {
        return false;
    }
    match first {
        Component::Normal(n) => n == name,
        _ => false,
    }
'''))
ok('xo-prepass-any', 'C04', (PY, NLOOP, '''                        if names.iter().any(|name| !is_plain_filename(name)) {
                            return Err(std::io::ErrorKind::InvalidData.into());
                        }
                        for name in names {
                            filepath.push(name);
                        }
'''))
ok('xo-prepass-all', 'C04', (PY, NLOOP, '''                        if !names.iter().all(|name| is_plain_filename(name)) {
                            return Err(std::io::ErrorKind::InvalidData.into());
                        }
                        filepath.extend(names.iter());
'''))
ok('xo-prepass-find', 'C04', (PY, NLOOP, '''                        if let Some(name) = names.iter().find(|name| !is_plain_filename(name)) {
                            ''' + BADN + '''
                        }
                        for name in names {
                            filepath.push(name);
                        }
'''))
ok('xo-prepass-loop', 'C04', (PY, NLOOP, '''                        for name in names {
                            if !is_plain_filename(name) {
                                ''' + BADN + '''
                            }
                        }
                        for name in names {
                            filepath.push(name);
                        }
'''))
ok('xo-late-ok', 'C04', (PY, NLOOP, '''                        for name in names {
                            filepath.push(name);
                            if !is_plain_filename(name) {
                                ''' + BADN + '''
                            }
                        }
'''))
ok('xo-helper', 'C04', (PY, NLOOP, '''                        append_names(&mut filepath, names)?;
'''), (PY, '''#[pymethods]
''', '''fn append_names(path: &mut PathBuf, names: &[&str]) -> std::io::Result<()> {
    names.iter().try_for_each(|n| {
        if !is_plain_filename(n) {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidData));
        }
        path.push(n);
        Ok(())
    })
}

#[pymethods]
'''))
ok('xo-helper2', 'C04', (PY, NLOOP, '''                        for name in names {
                            checked_push(&mut filepath, name)?;
                        }
'''), (PY, '''#[pymethods]
''', '''fn checked_push(path: &mut PathBuf, n: &str) -> std::io::Result<()> {
    if is_plain_filename(n) {
        path.push(n);
        Ok(())
    } else {
        Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("bad name {n:?}")))
    }
}

#[pymethods]
'''))
ok('xo-helper3', 'C04', (PY, NLOOP, '''                        let mut i = 0;
                        while i < names.len() {
                            let name = &names[i];
                            if is_plain_filename(name) {
                                filepath = filepath.join(name);
                            } else {
                                ''' + BADN + '''
                            }
                            i += 1;
                        }
'''))

# ---- C02 / C20
RD = """                            let bytes_read =
                                wii_encrypt_reader.read(&mut buffer[..bytes_to_read])?;
"""
WR = "outfile.write_all(&buffer[..bytes_read])?;"
TAIL = """                        if bytes_left != 0 {
                            return Err(std::io::ErrorKind::UnexpectedEof.into());
                        }
"""
XL_START = "                        let mut bytes_left = *length as usize;\n                        loop {"
bug('sr-write-req', 'C02 C20', (PY, WR, "outfile.write_all(&buffer[..bytes_to_read])?;"))
bug('sr-write-all', 'C20 C02', (PY, WR, "outfile.write_all(&buffer)?;"))
bug('sr-dec-req', 'C02', (PY, "bytes_left -= bytes_read;", "bytes_left -= bytes_to_read;"))
bug('sr-write', 'C02', (PY, WR, "outfile.write(&buffer[..bytes_read])?;"))
bug('sr-notail', 'C02', (PY, TAIL, ""))
bug('sr-tail-cond', 'C02', (PY, "if bytes_left != 0 {", "if bytes_left == *length as usize && bytes_left != 0 {"))
bug('sr-break-short', 'C02', (PY, "                            if bytes_read == 0 {\n                                break;\n                            }\n", "                            if bytes_read == 0 {\n                                break;\n                            }\n                            if bytes_read < bytes_to_read { bytes_left = bytes_read; }\n"))
bug('sr-seek-miss', 'C02', (PY, "wii_encrypt_reader.seek(SeekFrom::Start(*offset))?;", "if *length > 0x20 { wii_encrypt_reader.seek(SeekFrom::Start(*offset))?; }"))
bug('sr-iocopy', 'C02', (PY, "                        wii_encrypt_reader.seek(SeekFrom::Start(*offset))?;", "                        wii_encrypt_reader.seek(SeekFrom::Start(*offset))?;\n                        if *length < 0x10 { std::io::copy(&mut (&mut wii_encrypt_reader).take(*length as u64), &mut outfile)?; return Ok(()); }"))
ok('sro-iocopy', 'C02 C20', (PY, "                        wii_encrypt_reader.seek(SeekFrom::Start(*offset))?;", "                        wii_encrypt_reader.seek(SeekFrom::Start(*offset))?;\n                        if *length < 0x10 { let n = std::io::copy(&mut (&mut wii_encrypt_reader).take(*length as u64), &mut outfile)?; if n != *length as u64 { return Err(std::io::ErrorKind::UnexpectedEof.into()); } return Ok(()); }"))
bug('sr-region', 'C02', ('src/new_reader.rs', "rs.read_exact(&mut region)?;", "rs.read(&mut region)?;"))
bug('sr-region2', 'C02', ('src/builder.rs', "f.read_exact(&mut region)?;", "let _ = f.read(&mut region)?;"))
bug('sr-region3', 'C02', ('src/builder.rs', "self.file.write_all(&self.region)?;", "self.file.write(&self.region)?;"))
bug('sr-writefile', 'C02', ('src/new_reader.rs', "f.write_all(data)?;", "f.write(data)?;"))
bug('sr-vec', 'C02', ('src/new_reader.rs', "return Err(io::ErrorKind::UnexpectedEof.into());", "break;"))
bug('sr-dst-win', 'C02', ('src/builder.rs', "partition_window.write_all(h3.as_ref())?;", "partition_window.write(h3.as_ref())?;"))
ok('sro-while', 'C02 C20', (PY, XL_START, "                        let mut bytes_left = *length as usize;\n                        while bytes_left > 0 {"))
ok('sro-exact', 'C02 C20', (PY, RD, """                            wii_encrypt_reader.read_exact(&mut buffer[..bytes_to_read])?;
                            let bytes_read = bytes_to_read;
"""))
ok('sro-eof-early', 'C02 C20', (PY, """                            if bytes_read == 0 {
                                break;
                            }
""", """                            if bytes_read == 0 {
                                if bytes_left > 0 {
                                    return Err(std::io::ErrorKind::UnexpectedEof.into());
                                }
                                break;
                            }
"""), (PY, TAIL, ""))
ok('sro-chunk', 'C02 C20', (PY, WR, "let chunk = &buffer[..bytes_read];\n                            outfile.write_all(chunk)?;"))
ok('sro-up', 'C02 C20', (PY, XL_START, "                        let total = *length as usize;\n                        let mut pos = 0usize;\n                        loop {"),
   (PY, "let bytes_to_read = bytes_left.min(buffer.len());", "let bytes_to_read = (total - pos).min(buffer.len());"),
   (PY, "bytes_left -= bytes_read;", "pos += bytes_read;"), (PY, "if bytes_left != 0 {", "if pos < total {"))
ok('sro-bufw', 'C02 C20', (PY, "                        let mut outfile = fs::File::create(&filepath)?;", "                        let mut outfile = std::io::BufWriter::new(fs::File::create(&filepath)?);"),
  (PY, TAIL, TAIL + "                        outfile.flush()?;\n"))
ok('sro-helper', 'C02 C20 C04 C01', (PY, """                            outfile.write_all(&buffer[..bytes_read])?;
""", """                            put(&mut outfile, &buffer, bytes_read)?;
"""), (PY, "#[pymethods]\n", """fn put(out: &mut fs::File, buf: &[u8], n: usize) -> std::io::Result<()> {
    out.write_all(&buf[..n])
}

#[pymethods]
"""))
WHOLE = """                        let mut bytes_left = *length as usize;
                        loop {
                            let bytes_to_read = bytes_left.min(buffer.len());
""" + RD + """                            if bytes_read == 0 {
                                break;
                            }

                            outfile.write_all(&buffer[..bytes_read])?;
                            done_bytes += bytes_read;
                            bytes_left -= bytes_read;

                            let done_percent =
                                ((done_bytes as f64) / (total_bytes as f64) * 100f64) as u32;
                            Python::attach(|py| {
                                let _ = callback.call1(py, (done_percent,));
                            });
                        }
""" + TAIL
ok('sro-loop', 'C02 C20 C04 C01', (PY, """                        let mut bytes_left = *length as usize;
                        loop {
                            let bytes_to_read = bytes_left.min(buffer.len());
""" + RD + """                            if bytes_read == 0 {
                                break;
                            }

                            outfile.write_all(&buffer[..bytes_read])?;
                            done_bytes += bytes_read;
                            bytes_left -= bytes_read;

                            let done_percent =
                                ((done_bytes as f64) / (total_bytes as f64) * 100f64) as u32;
                            Python::attach(|py| {
                                let _ = callback.call1(py, (done_percent,));
                            });
                        }
""" + TAIL, """                        copy_range(&mut wii_encrypt_reader, &mut outfile, &mut buffer, *length as usize, |n| {
                            done_bytes += n;
                            let done_percent =
                                ((done_bytes as f64) / (total_bytes as f64) * 100f64) as u32;
                            Python::attach(|py| {
                                let _ = callback.call1(py, (done_percent,));
                            });
                        })?;
"""), (PY, "#[pymethods]\n", """fn copy_range<R: Read>(r: &mut R, out: &mut fs::File, buf: &mut [u8], length: usize, mut report: impl FnMut(usize)) -> std::io::Result<()> {
    let mut left = length;
    while left != 0 {
        let want = left.min(buf.len());
        let got = r.read(&mut buf[..want])?;
        if got == 0 {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        out.write_all(&buf[..got])?;
        left -= got;
        report(got);
    }
    Ok(())
}

#[pymethods]
"""))
bug('lk-noclear-bi2', 'C20', (B, "        self.buf.clear();\n        f.read_to_end(&mut self.buf)?;\n        Ok(Cow::Borrowed(&self.buf))", "        f.read_to_end(&mut self.buf)?;\n        Ok(Cow::Borrowed(&self.buf))"))
bug('lk-noclear-dol', 'C20', (B, '        self.buf.clear();\n        let path = self.base_dir.join("sys/main.dol");', '        let path = self.base_dir.join("sys/main.dol");'))
bug('lk-noclear-file', 'C20', (B, "        self.buf.clear();\n        let mut f = try_open(fs_path)?;", "        let mut f = try_open(fs_path)?;"))
bug('lk-cond-file', 'C20', (B, "        self.buf.clear();\n        let mut f = try_open(fs_path)?;", "        let mut f = try_open(fs_path)?;\n        if f.metadata()?.len() > 0 { self.buf.clear(); }"))
bug('lk-trunc-file', 'C20', (B, "        self.buf.clear();\n        let mut f = try_open(fs_path)?;", "        let mut f = try_open(fs_path)?;\n        let n = f.metadata()?.len() as usize;\n        self.buf.truncate(n);"))
bug('lk-resize', 'C20', (B, "        self.buf.clear();\n        let mut f = try_open(fs_path)?;\n        f.read_to_end(&mut self.buf)?;", "        let mut f = try_open(fs_path)?;\n        let n = f.metadata()?.len() as usize;\n        if self.buf.len() < n { self.buf.resize(n, 0); }\n        f.read_exact(&mut self.buf[..n])?;"))
bug('lk-copy-clear', 'C20', ('src/new_reader.rs', "        buffer.clear();\n", ""))
bug('lk-drain', 'C20', (B, "        self.buf.clear();\n        let mut f = try_open(fs_path)?;\n        f.read_to_end(&mut self.buf)?;", "        let old = self.buf.len();\n        let mut f = try_open(fs_path)?;\n        f.read_to_end(&mut self.buf)?;\n        if old < 0x100 { self.buf.drain(..old); }"))
ok('lko-clear-late', 'C20', (B, "        self.buf.clear();\n        let mut f = try_open(fs_path)?;\n", "        let mut f = try_open(fs_path)?;\n        self.buf.clear();\n"))
ok('lko-trunc0', 'C20', (B, "        self.buf.clear();\n        let mut f = try_open(fs_path)?;\n", "        self.buf.truncate(0);\n        let mut f = try_open(fs_path)?;\n"))
ok('lko-fresh', 'C20', (B, "        self.buf.clear();\n        let mut f = try_open(fs_path)?;\n", "        self.buf = Vec::new();\n        let mut f = try_open(fs_path)?;\n"))
ok('lko-owned', 'C20', (B, "        self.buf.clear();\n        let mut f = try_open(fs_path)?;\n        f.read_to_end(&mut self.buf)?;\n        Ok((Cow::Borrowed(&self.buf), 0))", "        let mut f = try_open(fs_path)?;\n        let mut v = Vec::new();\n        f.read_to_end(&mut v)?;\n        Ok((Cow::Owned(v), 0))"))
ok('lko-fsread', 'C20 C22 C18', (B, "        self.buf.clear();\n        let mut f = try_open(fs_path)?;\n        f.read_to_end(&mut self.buf)?;\n", "        drop(try_open(fs_path.clone())?);\n        self.buf = std::fs::read(&fs_path)?;\n"))
ok('lko-helper', 'C20 C18 C01', (B, '''        let path = self.base_dir.join("sys/main.dol");
        let mut f = try_open(path)?;
        f.read_to_end(&mut self.buf)?;
        Ok(Cow::Borrowed(&self.buf))''', '''        self.load("sys/main.dol")?;
        Ok(Cow::Borrowed(&self.buf))'''), (B, "fn try_open(path: PathBuf)", '''impl DirPartitionBuilder {
    fn load(&mut self, name: &str) -> Result<usize, DirPartAddErr> {
        let mut f = try_open(self.base_dir.join(name))?;
        self.buf.clear();
        Ok(f.read_to_end(&mut self.buf)?)
    }
}

fn try_open(path: PathBuf)'''))
ok('lko-helper2', 'C20 C18 C01', (B, '''        self.buf.clear();
        let path = self.base_dir.join("sys/main.dol");
        let mut f = try_open(path)?;
        f.read_to_end(&mut self.buf)?;
        Ok(Cow::Borrowed(&self.buf))''', '''        Ok(Cow::Borrowed(self.load("sys/main.dol")?))'''), (B, "fn try_open(path: PathBuf)", '''impl DirPartitionBuilder {
    fn load(&mut self, name: &str) -> Result<&[u8], DirPartAddErr> {
        let mut f = try_open(self.base_dir.join(name))?;
        self.buf.clear();
        f.read_to_end(&mut self.buf)?;
        Ok(self.buf.as_slice())
    }
}

fn try_open(path: PathBuf)'''))
ok('sro-vecread', 'C02 C20 C04 C01', (PY, WHOLE, """                        let mut whole = Vec::new();
                        wii_encrypt_reader.read_into_vec(*offset, *length as u64, &mut whole)?;
                        outfile.write_all(&whole)?;
                        done_bytes += whole.len();
                        let done_percent =
                            ((done_bytes as f64) / (total_bytes as f64) * 100f64) as u32;
                        Python::attach(|py| {
                            let _ = callback.call1(py, (done_percent,));
                        });
"""), (PY, "            let mut buffer = [0; 0x10_000];\n", ""), (PY, "io::{Read, Seek, SeekFrom, Write}", "io::{Seek, SeekFrom, Write}"))

# ---- C18
NR = 'src/new_reader.rs'
bug('ag-name', 'C18', (PY, 'section_path.join("cert.bin")', 'section_path.join("certs.bin")'))
bug('ag-dir', 'C18', (PY, 'section_path_disk.join("region.bin")', 'section_path.join("region.bin")'))
bug('ag-case', 'C18', (NR, '"apploader.img"', '"Apploader.img"'))
bug('ag-bname', 'C18', (B, '"sys/bi2.bin"', '"sys/bi2.img"'))
bug('ag-isoheader', 'C18', (B, '''        let path = self.base_dir.join("sys/boot.bin");''', '''        let path = self.base_dir.join("disc/header.bin");'''))
bug('ag-cond', 'C18', (PY, '''            binrw_write_file(&section_path.join("tmd.bin"), &tmd)?;''', '''            if tmd.contents.len() > 1 { binrw_write_file(&section_path.join("tmd.bin"), &tmd)?; }'''))
bug('ag-cond2', 'C18', (PY, '''            fs::write(section_path_disk.join("region.bin"), region)?;''', '''            if region[0] != 0 { fs::write(section_path_disk.join("region.bin"), region)?; }'''))
bug('ag-region', 'C18', (PY, '''            fs::write(section_path_disk.join("region.bin"), region)?;''', '''            fs::write(section_path_disk.join("region.bin"), &region[..16])?;'''))
bug('ag-bi2len', 'C18', (NR, "crypt_part_reader.read_into_vec(0x440, 0x2000, &mut bi2_buf)?;", "crypt_part_reader.read_into_vec(0x440, 0x1000, &mut bi2_buf)?;"))
bug('ag-apsize', 'C18', (NR, "let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;", "let fullsize = 32 + apploader_header.size1 as u64;"))
bug('ag-apsize2', 'C18', (NR, "let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;", "let fullsize = apploader_header.size1 as u64 + apploader_header.size2 as u64;"))
bug('ag-dol', 'C18', (NR, "                .chain(dol_header.data_sizes.iter())\n", ""))
bug('ag-dol2', 'C18', (NR, "dol_header.data_sizes.iter()", "dol_header.data_sizes[1..].iter()"))
bug('ag-dol3', 'C18', (NR, "let mut dol_size = dol_header.text_off[0];", "let mut dol_size = 0u32;"))
bug('ag-header-mod', 'C18', (NR, "        f.write_be(&self.encrypted_header)?;\n", "        let mut h = self.encrypted_header.clone();\n        h.disc_num = 0;\n        f.write_be(&h)?;\n"))
bug('ag-tmd-mod', 'C18', (PY, "            let tmd = partition\n", "            let mut tmd = partition\n"), (PY, '''            binrw_write_file(&section_path.join("tmd.bin"), &tmd)?;''', '''            tmd.contents.truncate(1);
            binrw_write_file(&section_path.join("tmd.bin"), &tmd)?;'''))
bug('ag-boot-iso', 'C18', (NR, "f.write_be(&self.encrypted_header)?;", "f.write_be(&reader.header)?;"))
bug('ag-le', 'C18', (PY, "f.write_be(value).into_pyerr_with_path(p)?;", "f.write_le(value).into_pyerr_with_path(p)?;"))
bug('ag-skip-sec', 'C18', (PY, "            let section_path = path.join(format!(\"{}\", partition.part));\n", "            let section_path = path.join(format!(\"{}\", partition.part));\n            if partition.fst.get_entries().is_empty() { continue; }\n"))
bug('ag-files', 'C18', (PY, 'section_path.join("files")', 'section_path.join("content")'))
bug('ag-filesb', 'C18', (B, 'partition_path.join("files")', 'dir.join("files")'))
bug('ag-data', 'C18', (B, 'let partition_path = dir.join("DATA");', 'let partition_path = dir.join("data");'))
bug('ag-swap', 'C18', (NR, 'write_file(&sys_folder, "bi2.bin", &self.read_bi2(reader)?)?;', 'write_file(&sys_folder, "bi2.bin", &self.read_apploader(reader)?)?;'))
bug('ag-drain', 'C18', (PY, "self.sections_to_extract.drain(..)", "self.sections_to_extract.drain(1..)"))
ok('ago-order', '', (PY, '''            binrw_write_file(&section_path.join("cert.bin"), &certs)?;
''', ''), (PY, '''            binrw_write_file(
                &section_path.join("ticket.bin"),''', '''            binrw_write_file(&section_path.join("cert.bin"), &certs)?;
            binrw_write_file(
                &section_path.join("ticket.bin"),'''))
ok('ago-rename-both', '', (PY, 'section_path.join("cert.bin")', 'section_path.join("certs.bin")'), (B, 'partition_path.join("cert.bin")', 'partition_path.join("certs.bin")'))
ok('ago-helper', '', (PY, '''            binrw_write_file(&section_path_disk.join("header.bin"), &disc_header)?;
            fs::write(section_path_disk.join("region.bin"), region)?;
''', '''            write_disc(&section_path_disk, &disc_header, &region)?;
'''), (PY, "#[pymethods]\n", '''fn write_disc(dir: &Path, header: &disc_riider::structs::DiscHeader, region: &[u8; 32]) -> PyResult<()> {
    binrw_write_file(&dir.join("header.bin"), header)?;
    fs::write(dir.join("region.bin"), region)?;
    Ok(())
}

#[pymethods]
'''))
ok('ago-create', '', (PY, '''            fs::write(section_path_disk.join("region.bin"), region)?;
''', '''            fs::File::create(section_path_disk.join("region.bin"))?.write_all(&region)?;
'''))
ok('ago-path', '', (B, '''        let path = dir.join("DATA/disc/region.bin");''', '''        let path = dir.join("DATA").join("disc").join("region.bin");'''))
ok('ago-join', '', (NR, '''        write_file(&sys_folder, "bi2.bin", &self.read_bi2(reader)?)?;
''', '''        let bi2 = self.read_bi2(reader)?;
        std::fs::write(sys_folder.join("bi2.bin"), &bi2)?;
'''))
ok('ago-helper-b', '', (B, '''    let ticket = {
        let path = partition_path.join("ticket.bin");
        let mut f = try_open(path)?;
        f.read_be::<Ticket>()?
    };
    let tmd = {
        let path = partition_path.join("tmd.bin");
        let mut f = try_open(path)?;
        f.read_be::<TMD>()?
    };
''', '''    let ticket = try_open(partition_path.join("ticket.bin"))?.read_be::<Ticket>()?;
    let tmd: TMD = try_open(partition_path.join("tmd.bin"))?.read_be()?;
'''))
ok('ago-dolfold', '', (NR, '''        dol_size = dol_size.saturating_add(
            dol_header
                .text_sizes
                .iter()
                .chain(dol_header.data_sizes.iter())
                .cloned()
                .reduce(|accum, item| accum.saturating_add(item))
                .unwrap(),
        );
''', '''        for size in dol_header.text_sizes.iter().chain(dol_header.data_sizes.iter()) {
            dol_size = dol_size.saturating_add(*size);
        }
'''))
ok('ago-dolfold2', '', (NR, '''        dol_size = dol_size.saturating_add(
            dol_header
                .text_sizes
                .iter()
                .chain(dol_header.data_sizes.iter())
                .cloned()
                .reduce(|accum, item| accum.saturating_add(item))
                .unwrap(),
        );
''', '''        for size in dol_header.text_sizes {
            dol_size = dol_size.saturating_add(size);
        }
        dol_size = dol_header.data_sizes.iter().fold(dol_size, |a, b| a.saturating_add(*b));
'''))
ok('ago-bufwriter', '', (PY, '''    let mut f = fs::File::create(p).into_pyerr_with_path(p)?;
    f.write_be(value).into_pyerr_with_path(p)?;
    Ok(())''', '''    let mut f = std::io::BufWriter::new(fs::File::create(p).into_pyerr_with_path(p)?);
    f.write_be(value).into_pyerr_with_path(p)?;
    f.flush().into_pyerr_with_path(p)?;
    Ok(())'''))
ok('ago-fn', '', (PY, '''            let certs = partition
                .partition_reader
                .read_certificates(&mut self.iso)
                .into_pyerr()?;
            binrw_write_file(&section_path.join("cert.bin"), &certs)?;
            let tmd = partition
                .partition_reader
                .read_tmd(&mut self.iso)
                .into_pyerr()?;
            binrw_write_file(&section_path.join("tmd.bin"), &tmd)?;
''', '''            write_meta(&mut partition.partition_reader, &mut self.iso, &section_path)?;
'''), (PY, "#[pymethods]\n", '''fn write_meta(p: &mut WiiPartitionReadInfo, iso: &mut WiiIsoReader<fs::File>, dir: &Path) -> PyResult<()> {
    let tmd = p.read_tmd(iso).into_pyerr()?;
    binrw_write_file(&dir.join("tmd.bin"), &tmd)?;
    let certs = p.read_certificates(iso).into_pyerr()?;
    binrw_write_file(&dir.join("cert.bin"), &certs)
}

#[pymethods]
'''))

# ---- C21
CLI = 'iso-tool/src/main.rs'
bug('ds-cli', 'C21', (CLI, "                .truncate(true)\n", ""))
bug('ds-py', 'C21', (PY, "        .truncate(true)\n", "        .truncate(false)\n"))
bug('ds-copy', 'C21', (B, "            .truncate(true)\n", ""))
bug('ds-groups', 'C21', (B, "        self.file.write_all(&[0; 3 * 8])?;\n", "        self.file.write_all(&[0; 2 * 8])?;\n"))
bug('ds-cond', 'C21', (B, "        self.file.write_all(&self.region)?;\n", "        if self.region != [0; 32] { self.file.write_all(&self.region)?; }\n"))
bug('ds-exists', 'C21', (CLI, "                .truncate(true)\n", "                .truncate(!dest_file.exists())\n"))
bug('ds-setlen', 'C21', (PY, "        .truncate(true)\n", ""), (PY, "    build_from_directory(&src_dir, &mut dest_file,", "    if dest_file.metadata()?.len() > 0x1_0000_0000 { dest_file.set_len(0)?; }\n    build_from_directory(&src_dir, &mut dest_file,"))
ok('dso-setlen', '', (PY, "        .truncate(true)\n", ""), (PY, "    build_from_directory(&src_dir, &mut dest_file,", "    dest_file.set_len(0)?;\n    build_from_directory(&src_dir, &mut dest_file,"))
ok('dso-create', '', (CLI, """            let mut f = OpenOptions::new()
                .truncate(true)
                .read(true)
                .write(true)
                .create(true)
                .open(&dest_file)?;""", """            let mut f = File::options().read(true).write(true).create(true).truncate(true).open(&dest_file)?;"""), (CLI, "fs::{File, OpenOptions}", "fs::File"))
ok('dso-helper', '', (CLI, """            let mut f = OpenOptions::new()
                .truncate(true)
                .read(true)
                .write(true)
                .create(true)
                .open(&dest_file)?;""", """            let mut f = open_dest(&dest_file)?;"""), (CLI, "fn main()", """fn open_dest(p: &std::path::Path) -> std::io::Result<File> {
    let mut o = OpenOptions::new();
    o.read(true).write(true);
    o.create(true).truncate(true);
    o.open(p)
}

fn main()"""))
ok('dso-zero', '', (B, "        self.file.write_all(&[0; 3 * 8])?;\n", "        for _ in 0..3 {\n            self.file.write_be(&0u32)?;\n            self.file.write_be(&0u32)?;\n        }\n"))
ok('dso-zero2', '', (B, """        self.file.write_be(&(self.partitions.len() as u32))?;
        self.file.write_be(&(0x40020u32 >> 2))?;
        // the other 3 groups are empty
        self.file.write_all(&[0; 3 * 8])?;
""", """        let mut groups = [0u8; 0x20];
        groups[..4].copy_from_slice(&(self.partitions.len() as u32).to_be_bytes());
        groups[4..8].copy_from_slice(&(0x40020u32 >> 2).to_be_bytes());
        self.file.write_all(&groups)?;
"""))

# ---------------------------------------------------------------- C12 walks
F = 'src/fst.rs'
W1 = """            vec.push(node.get_name());
            f(vec, node)?;
            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec(f, files, vec)?;
                }
                FstNode::File { .. } => {}
            }
            let _ = vec.pop();
"""
W2 = """            vec.push(node.get_name().clone());
            f(vec, node)?;
            // make sure we have the correct path even if
            // the node name was modified
            if let Some(saved_name) = vec.iter().last() {
                if saved_name != node.get_name() {
                    let _ = vec.pop();
                    vec.push(node.get_name().clone());
                }
            }
            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec_mut(f, files, vec)?;
                }
                FstNode::File { .. } => {}
            }
            let _ = vec.pop();
"""
W2R = """            if let Some(saved_name) = vec.iter().last() {
                if saved_name != node.get_name() {
                    let _ = vec.pop();
                    vec.push(node.get_name().clone());
                }
            }
"""
W3 = """            path.push(node.get_name().clone());
            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec_mut(f, files, path)?;
                }
                FstNode::File {
                    ref mut offset,
                    ref mut length,
                    ..
                } => f(path, offset, length)?,
            }
            let _ = path.pop();
"""
bug('wk-nopop', 'C12', (F, W1, W1.replace("            let _ = vec.pop();\n", "            if node.is_file() { let _ = vec.pop(); }\n")))
bug('wk-skip', 'C12', (F, W1, "            if node.get_name().is_empty() { continue; }\n" + W1))
bug('wk-late', 'C12', (F, W1, W1.replace("            f(vec, node)?;\n", "").replace("            let _ = vec.pop();\n", "            f(vec, node)?;\n            let _ = vec.pop();\n")))
bug('wk-dironly', 'C12', (F, W1, W1.replace("            f(vec, node)?;\n", "            if node.is_file() { f(vec, node)?; }\n")))
bug('wk-twice', 'C12', (F, W1, W1.replace("callback_all_files_rec(f, files, vec)?;\n", "callback_all_files_rec(f, files, vec)?;\n                    f(vec, node)?;\n")))
bug('wk-rev', 'C12', (F, "        for node in nodes {\n" + W1, "        for node in nodes.iter().rev() {\n" + W1))
bug('wk-take', 'C12', (F, "        for node in nodes {\n" + W1, "        for node in nodes.iter().take(0xFFFF) {\n" + W1))
bug('wk-stale', 'C12', (F, W2R, ""))
bug('wk-stale-len', 'C12', (F, W2R, W2R.replace("saved_name != node.get_name()", "saved_name.len() != node.get_name().len()")))
bug('wk-stale-file', 'C12', (F, W2R, W2R.replace("saved_name != node.get_name()", "saved_name != node.get_name() && node.is_file()")))
bug('wk-stale-case', 'C12', (F, W2R, W2R.replace("saved_name != node.get_name()", "!saved_name.eq_ignore_ascii_case(node.get_name())")))
bug('wk-stale-nopop', 'C12', (F, W2R, W2R.replace("                    let _ = vec.pop();\n", "")))
bug('wk-late-err', 'C12', (F, W1, W1.replace("            f(vec, node)?;\n", "            let r = f(vec, node);\n").replace("            let _ = vec.pop();\n", "            let _ = vec.pop();\n            r?;\n")))
bug('wk-empty', 'C12', (F, W3, W3.replace("FstNode::Directory { files, .. } => {\n", "FstNode::Directory { files, .. } if files.is_empty() => { continue; }\n                FstNode::Directory { files, .. } => {\n")))
bug('wk-zero', 'C12', (F, W3, W3.replace("                } => f(path, offset, length)?,\n", "                } => if *length != 0 { f(path, offset, length)? },\n")))
bug('wk-break', 'C12', (F, W3, W3.replace("            let _ = path.pop();\n", "            let _ = path.pop();\n            if path.len() > 100 { break; }\n")))
bug('wk-pushdir', 'C12', (F, W3, W3.replace("            path.push(node.get_name().clone());\n", "            if node.is_dir() { path.push(node.get_name().clone()); }\n").replace("            let _ = path.pop();\n", "            if node.is_dir() { let _ = path.pop(); }\n")))
bug('wk-nodesc', 'C12', (F, W3, W3.replace("                    Self::callback_all_files_rec_mut(f, files, path)?;\n", "                    if files.len() > 1 { Self::callback_all_files_rec_mut(f, files, path)?; }\n")))
bug('wk-start', 'C12', (F, "        let mut path = Vec::with_capacity(20);\n        Self::callback_all_files_rec_mut(f, &mut self.fst.entries, &mut path)", "        let mut path = vec![String::new()];\n        Self::callback_all_files_rec_mut(f, &mut self.fst.entries, &mut path)"))
ok('wko-iflet', '', (F, W1, W1.replace("""            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec(f, files, vec)?;
                }
                FstNode::File { .. } => {}
            }
""", """            if let FstNode::Directory { files, .. } = node {
                Self::callback_all_files_rec(f, files, vec)?;
            }
""")))
ok('wko-while', '', (F, "        for node in nodes {\n" + W1, "        let mut it = nodes.iter();\n        while let Some(node) = it.next() {\n" + W1))
ok('wko-always', '', (F, W2R, "            let _ = vec.pop();\n            vec.push(node.get_name().clone());\n"))
ok('wko-lastmut', '', (F, W2R, "            if let Some(last) = vec.last_mut() { *last = node.get_name().clone(); }\n"))
ok('wko-cmpmap', '', (F, W2R, "            if vec.last().map(|s| s.as_str()) != Some(node.get_name().as_str()) {\n                vec.pop();\n                vec.push(node.get_name().clone());\n            }\n"))
ok('wko-trunc', '', (F, "        for node in nodes {\n" + W1, "        let depth = vec.len();\n        for node in nodes {\n" + W1.replace("let _ = vec.pop();", "vec.truncate(depth);")))
ok('wko-helper', '', (F, "        for node in nodes {\n" + W1 + "        }\n        Ok(())\n    }\n", "        for node in nodes {\n            Self::visit_one(f, node, vec)?;\n        }\n        Ok(())\n    }\n\n    fn visit_one<'a, E, F: FnMut(&Vec<&str>, &FstNode) -> Result<(), E>>(\n        f: &mut F,\n        node: &'a FstNode,\n        vec: &mut Vec<&'a str>,\n    ) -> Result<(), E> {\n" + W1 + "        Ok(())\n    }\n"))
ok('wko-tryfor', '', (F, "        for node in nodes {\n" + W1 + "        }\n        Ok(())\n", "        nodes.iter().try_for_each(|node| {\n" + W1 + "            Ok(())\n        })\n"))
ok('wko-index', '', (F, "        for node in nodes {\n" + W1, "        for i in 0..nodes.len() {\n            let node = &nodes[i];\n" + W1))
ok('wko-enum', '', (F, "        for node in nodes {\n" + W1, "        for (_i, node) in nodes.iter().enumerate() {\n" + W1))
ok('wko-split', '', (F, W3, """            path.push(node.get_name().clone());
            if let FstNode::File { offset, length, .. } = node {
                f(path, offset, length)?;
            } else if let FstNode::Directory { files, .. } = node {
                Self::callback_all_files_rec_mut(f, files, path)?;
            }
            path.pop();
"""))
ok('wko-arms', '', (F, W3, """            match node {
                FstNode::Directory { name, files } => {
                    path.push(name.clone());
                    Self::callback_all_files_rec_mut(f, files, path)?;
                    path.pop();
                }
                FstNode::File { name, offset, length } => {
                    path.push(name.clone());
                    f(path, offset, length)?;
                    path.pop();
                }
            }
"""))
ok('wko-clone', '', (F, W3, """            let mut inner = path.clone();
            inner.push(node.get_name().clone());
            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec_mut(f, files, &mut inner)?;
                }
                FstNode::File { offset, length, .. } => f(&inner, offset, length)?,
            }
"""))

# ---------------------------------------------------------------- C19 section names
SM = """            let part_type = match section.to_ascii_uppercase().as_str() {
                "DATA" => WiiPartType::Data,
                "CHANNEL" => WiiPartType::Channel,
                "UPDATE" => WiiPartType::Update,
                _ => return Err(MyError::InvalidSection(section)),
            };
"""
PM = """            "DATA" => WiiPartType::Data,
            "CHANNEL" => WiiPartType::Channel,
            "UPDATE" => WiiPartType::Update,
            _ => {
                return Err(exceptions::PyValueError::new_err(format!(
                    "unknown section {section}"
                )))
            }
"""
bug('sn-cli-swap', 'C19', (CLI, SM, SM.replace('"CHANNEL" => WiiPartType::Channel', '"CHANNEL" => WiiPartType::Update')))
bug('sn-cli-case', 'C19', (CLI, SM, SM.replace('section.to_ascii_uppercase().as_str()', 'section.as_str()')))
bug('sn-cli-default', 'C19', (CLI, SM, SM.replace('_ => return Err(MyError::InvalidSection(section)),', '_ => WiiPartType::Data,')))
bug('sn-cli-drop', 'C19', (CLI, SM, SM.replace('                "UPDATE" => WiiPartType::Update,\n', '')))
bug('sn-cli-alias', 'C19', (CLI, SM, SM.replace('"UPDATE" =>', '"UPDATE" | "UPD" =>')))
bug('sn-cli-first', 'C19', (CLI, """                .find(|p| p.get_type() == part_type)
                .cloned()
                .ok_or_else(|| MyError::SectionNotFound(part_type))?;

""", """                .find(|p| p.get_type() == part_type)
                .or_else(|| reader.partitions().first())
                .cloned()
                .ok_or_else(|| MyError::SectionNotFound(part_type))?;

"""))
bug('sn-cli-last', 'C19', (CLI, """                .find(|p| p.get_type() == part_type)
                .cloned()
                .ok_or_else(|| MyError::SectionNotFound(part_type))?;

""", """                .find(|p| p.get_type() != WiiPartType::Update || part_type == WiiPartType::Update)
                .cloned()
                .ok_or_else(|| MyError::SectionNotFound(part_type))?;

"""))
bug('sn-py-swap', 'C19', (PY, PM, PM.replace('"UPDATE" => WiiPartType::Update', '"UPDATE" => WiiPartType::Channel')))
bug('sn-py-low', 'C19', (PY, "    pub fn get_partition<'a>(&'a mut self, mut section: String) -> PyResult<&'a mut Section> {\n        section.make_ascii_uppercase();\n", "    pub fn get_partition<'a>(&'a mut self, section: String) -> PyResult<&'a mut Section> {\n"))
bug('sn-py-prefix', 'C19', (PY, "            .find(|part| part.part == section)\n            .ok_or_else(|| {\n                exceptions::PyException::new_err(format!(\"section {section} doesn't exist!\"))\n            })\n    }", "            .find(|part| part.part.starts_with(&section))\n            .ok_or_else(|| {\n                exceptions::PyException::new_err(format!(\"section {section} doesn't exist!\"))\n            })\n    }"))
bug('sn-py-missing', 'C19', (PY, """            .find(|p| p.get_type() == part_type)
            .cloned()
            .ok_or_else(|| {
                exceptions::PyException::new_err(format!("section {section} doesn't exist!"))
            })?;
        let partition_reader""", """            .find(|p| p.get_type() == part_type)
            .cloned();
        let Some(partition) = partition else { return Ok(()) };
        let partition_reader"""))
bug('sn-py-parse', 'C19', (PY, 'section.eq_ignore_ascii_case("update")', 'section == "update"'))
bug('sn-py-parse2', 'C19', (PY, 'Ok(WiiPartType::Channel)\n    } else', 'Ok(WiiPartType::Data)\n    } else'))
bug('sn-py-keep', 'C19', (PY, "    pub fn prepare_extract_section(&mut self, mut section: String) -> PyResult<()> {\n        section.make_ascii_uppercase();\n", "    pub fn prepare_extract_section(&mut self, section: String) -> PyResult<()> {\n"), (PY, "        let part_type = match section.as_str() {", "        let part_type = match section.to_ascii_uppercase().as_str() {"))
ok('sno-helper', '', (CLI, SM, "            let part_type = part_type_of(section)?;\n"), (CLI, "fn main() ->", """fn part_type_of(section: String) -> Result<WiiPartType, MyError> {
    match section.to_ascii_uppercase().as_str() {
        "DATA" => Ok(WiiPartType::Data),
        "CHANNEL" => Ok(WiiPartType::Channel),
        "UPDATE" => Ok(WiiPartType::Update),
        _ => Err(MyError::InvalidSection(section)),
    }
}

fn main() ->"""))
ok('sno-iflet', '', (CLI, SM, """            let part_type = if section.eq_ignore_ascii_case("DATA") {
                WiiPartType::Data
            } else if section.eq_ignore_ascii_case("CHANNEL") {
                WiiPartType::Channel
            } else if section.eq_ignore_ascii_case("UPDATE") {
                WiiPartType::Update
            } else {
                return Err(MyError::InvalidSection(section));
            };
"""))
ok('sno-lower', '', (CLI, SM, SM.replace('to_ascii_uppercase', 'to_ascii_lowercase').replace('"DATA"', '"data"').replace('"CHANNEL"', '"channel"').replace('"UPDATE"', '"update"')))
ok('sno-table', '', (CLI, SM, """            let table = [("DATA", WiiPartType::Data), ("CHANNEL", WiiPartType::Channel), ("UPDATE", WiiPartType::Update)];
            let part_type = match table.iter().find(|(n, _)| section.eq_ignore_ascii_case(n)) {
                Some((_, t)) => *t,
                None => return Err(MyError::InvalidSection(section)),
            };
"""))
ok('sno-parse', '', (PY, "        let part_type = match section.as_str() {\n" + PM + "        };\n", "        let part_type = parse_section(&section)?;\n"))
ok('sno-getp', '', (PY, """        section.make_ascii_uppercase();
        let partition = self
            .sections_to_extract
            .iter_mut()
            .find(|part| part.part == section)
            .ok_or_else(|| {
                exceptions::PyException::new_err(format!("section {section} doesn't exist!"))
            })?;
        let dol""", """        section.make_ascii_uppercase();
        let idx = self.sections_to_extract.iter().position(|part| part.part == section);
        let Some(idx) = idx else {
            return Err(exceptions::PyException::new_err(format!("section {section} doesn't exist!")));
        };
        let partition = &mut self.sections_to_extract[idx];
        let dol"""))
ok('sno-loop', '', (CLI, """            let partition = reader
                .partitions()
                .iter()
                .find(|p| p.get_type() == part_type)
                .cloned()
                .ok_or_else(|| MyError::SectionNotFound(part_type))?;

""", """            let mut partition = None;
            for p in reader.partitions().iter() {
                if p.get_type() == part_type {
                    partition = Some(p.clone());
                    break;
                }
            }
            let partition = partition.ok_or(MyError::SectionNotFound(part_type))?;

"""))
ok('sno-ign', '', (PY, "            .find(|part| part.part == section)\n            .ok_or_else(|| {\n                exceptions::PyException::new_err(format!(\"section {section} doesn't exist!\"))\n            })\n    }", "            .find(|part| part.part.eq_ignore_ascii_case(&section))\n            .ok_or_else(|| {\n                exceptions::PyException::new_err(format!(\"section {section} doesn't exist!\"))\n            })\n    }"))

# ------------------------------------------------------------------ C22 folder walk
ISDIR = """        if metadata.is_dir() {
            // directories, push them to the dir stack
            dirs.push(filename);
            build_fst_from_directory_tree_rec(&path, dirs, fst)?;
            let _ = dirs.pop();
        } else {"""
TAIL = """            if !matches!(
                fst.add_node_iter(
                    dirs.iter().map(|s| s.as_str()),
                    FstNode::File {
                        name: filename,
                        offset: 0,
                        length: metadata
                            .len()
                            .try_into()
                            .map_err(|_| BuildDirError::FileTooLarge(path, metadata.len()))?
                    }
                ),
                Ok(None)
            ) {
                return Err(BuildDirError::DuplicateFilename(
                    os_filename.to_str().unwrap_or_default().to_string(),
                ));
            }
        }
"""
LETSOME = """        let Some(filename) = os_filename.to_str().map(String::from) else {
            return Err(BuildDirError::InvalidFilename(os_filename));
        };
"""
bug('fo-hidden', 'C22', (DR, LETSOME, LETSOME + "        if filename.starts_with('.') {\n            continue;\n        }\n"))
bug('fo-dsstore', 'C22', (DR, LETSOME, LETSOME + "        if filename == \"Thumbs.db\" {\n            continue;\n        }\n"))
bug('fo-nonutf8', 'C22', (DR, LETSOME, """        let Some(filename) = os_filename.to_str().map(String::from) else {
            continue;
        };
"""))
bug('fo-lossy', 'C22', (DR, LETSOME, "        let filename = os_filename.to_string_lossy().into_owned();\n"))
bug('fo-empty', 'C22', (DR, ISDIR, ISDIR.replace('} else {', '} else if metadata.len() > 0 {')))
bug('fo-dup', 'C22', (DR, 'Ok(None)\n            ) {', 'Ok(_)\n            ) {'))
bug('fo-dup2', 'C22', (DR, 'if !matches!(\n                fst.add_node_iter(', 'if matches!(\n                fst.add_node_iter('), (DR, 'Ok(None)\n            ) {', 'Err(())\n            ) {'))
bug('fo-nopop', 'C22', (DR, '            let _ = dirs.pop();\n', ''))
bug('fo-nopush', 'C22', (DR, '            dirs.push(filename);\n', '            let _ = filename;\n'), (DR, '            let _ = dirs.pop();\n', ''))
bug('fo-depth', 'C22', (DR, ISDIR, ISDIR.replace('        if metadata.is_dir() {', '        if metadata.is_dir() && dirs.len() > 16 {\n            continue;\n        }\n        if metadata.is_dir() {')))
bug('fo-take', 'C22', (DR, 'for entry in fs::read_dir(path)? {', 'for entry in fs::read_dir(path)?.take(0x4000) {'))
bug('fo-filter', 'C22', (DR, 'for entry in fs::read_dir(path)? {', "for entry in fs::read_dir(path)?.filter(|e| e.as_ref().map_or(true, |e| e.path().extension().is_some() || e.path().is_dir())) {"))
bug('fo-flatten', 'C22', (DR, 'for entry in fs::read_dir(path)? {\n        let entry = entry?;', 'for entry in fs::read_dir(path)?.flatten() {'))
bug('fo-skip1', 'C22', (DR, 'dirs.iter().map(|s| s.as_str()),', 'dirs.iter().skip((dirs.len() > 8) as usize).map(|s| s.as_str()),'))
bug('fo-lower', 'C22', (DR, 'name: filename,', 'name: filename.to_lowercase(),'))
bug('fo-break', 'C22', (DR, ISDIR, ISDIR.replace('?;\n            let _', '?;\n            if dirs.len() > 64 {\n                break;\n            }\n            let _')))
bug('fo-symdir', 'C22', (DR, ISDIR, ISDIR.replace('if metadata.is_dir() {', 'if metadata.is_dir() && dirs.iter().any(|d| *d == filename) {\n            // looped\n            continue;\n        } else if metadata.is_dir() {')))
ok('foo-isfile', '', (DR, ISDIR, ISDIR.replace('} else {', '} else if metadata.is_file() {')))
ok('foo-match', '', (DR, TAIL, """            let length = u32::try_from(metadata.len())
                .map_err(|_| BuildDirError::FileTooLarge(path, metadata.len()))?;
            let node = FstNode::File {
                name: filename,
                offset: 0,
                length,
            };
            match fst.add_node_iter(dirs.iter().map(String::as_str), node) {
                Ok(None) => {}
                Ok(Some(_)) | Err(()) => {
                    return Err(BuildDirError::DuplicateFilename(
                        os_filename.to_string_lossy().into_owned(),
                    ));
                }
            }
        }
"""))
ok('foo-helper', '', (DR, TAIL, """            add_file(fst, dirs, filename, &path, metadata.len())?;
        }
"""), (DR, 'fn build_fst_from_directory_tree_rec<', """fn add_file(fst: &mut Fst, dirs: &[String], name: String, path: &Path, len: u64) -> Result<(), BuildDirError> {
    let Ok(length) = u32::try_from(len) else {
        return Err(BuildDirError::FileTooLarge(path.to_path_buf(), len));
    };
    let shown = name.clone();
    let replaced = fst.add_node_iter(dirs.iter().map(|s| s.as_str()), FstNode::File { name, offset: 0, length });
    if let Ok(None) = replaced {
        Ok(())
    } else {
        Err(BuildDirError::DuplicateFilename(shown))
    }
}

fn build_fst_from_directory_tree_rec<"""))
ok('foo-sorted', '', (DR, 'for entry in fs::read_dir(path)? {\n        let entry = entry?;', 'let mut entries = fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;\n    entries.sort_by_key(|e| e.file_name());\n    for entry in entries {'))
ok('foo-while', '', (DR, 'for entry in fs::read_dir(path)? {\n        let entry = entry?;', 'let mut rd = fs::read_dir(path)?;\n    while let Some(entry) = rd.next().transpose()? {'))
ok('foo-join', '', (DR, 'let path = entry.path();', 'let path = path.as_ref().join(&os_filename);'))
ok('foo-ifnot', '', (DR, ISDIR, ISDIR.replace('        if metadata.is_dir() {', '        let is_dir = metadata.is_dir();\n        if is_dir {')))
ok('foo-continue', '', (DR, ISDIR, ISDIR.replace('let _ = dirs.pop();\n        } else {', 'dirs.pop();\n            continue;\n        }\n        {')))
ok('foo-intostring', '', (DR, LETSOME, """        let filename = match os_filename.clone().into_string() {
            Ok(name) => name,
            Err(name) => return Err(BuildDirError::InvalidFilename(name)),
        };
"""))
ok('foo-tostr', '', (DR, LETSOME, """        let filename = os_filename
            .to_str()
            .ok_or_else(|| BuildDirError::InvalidFilename(os_filename.clone()))?
            .to_string();
"""))
ok('foo-trunc', '', (DR, 'let _ = dirs.pop();', 'dirs.truncate(dirs.len() - 1);'))
ok('foo-recfirst', '', (DR, '            build_fst_from_directory_tree_rec(&path, dirs, fst)?;\n            let _ = dirs.pop();\n', '            let result = build_fst_from_directory_tree_rec(&path, dirs, fst);\n            dirs.pop();\n            result?;\n'))

# ------------------------------------------------------------------ C23 filter
FDIR = """                        dirstack.push(name.clone());
                        should_remove_file(files, dirstack, callback);
                        dirstack.pop();
                        true
"""
FFILE = """                        dirstack.push(name.clone());
                        let path = dirstack.join("/");
                        dirstack.pop();
                        let should_remove = Python::attach(|py| {
                            callback.call1(py, (path,)).and_then(|obj| obj.is_truthy(py))
                        }).unwrap_or(false);
                        !should_remove
"""
bug('ft-invert', 'C23', (PY, FFILE, FFILE.replace('!should_remove', 'should_remove')))
bug('ft-errdrop', 'C23', (PY, FFILE, FFILE.replace('unwrap_or(false)', 'unwrap_or(true)')))
bug('ft-dropdirs', 'C23', (PY, FDIR, FDIR.replace('                        true\n', '                        !files.is_empty()\n')))
bug('ft-nopop', 'C23', (PY, FDIR, FDIR.replace('                        dirstack.pop();\n', '')))
bug('ft-nodesc', 'C23', (PY, FDIR, FDIR.replace('should_remove_file(files', 'if dirstack.len() < 16 { should_remove_file(files').replace(', callback);', ', callback); }')))
bug('ft-nameonly', 'C23', (PY, FFILE, FFILE.replace('let path = dirstack.join("/");', 'let path = name.clone();')))
bug('ft-parent', 'C23', (PY, FFILE, FFILE.replace('                        dirstack.push(name.clone());\n', '').replace('                        dirstack.pop();\n', '')))
bug('ft-sep', 'C23', (PY, FFILE, FFILE.replace('join("/")', 'join("\\\\")')))
bug('ft-hidden', 'C23', (PY, FFILE, "                        if name.starts_with('.') { return true; }\n" + FFILE))
bug('ft-len', 'C23', (PY, FFILE.replace('', ''), FFILE.replace('!should_remove', '!should_remove || name.is_empty()')))
bug('ft-nodirname', 'C23', (PY, FDIR, FDIR.replace('                        dirstack.push(name.clone());\n', '').replace('                        dirstack.pop();\n', '')))
bug('ft-twice', 'C23', (PY, FDIR, FDIR.replace('                        should_remove_file(files, dirstack, callback);\n', '                        should_remove_file(files, dirstack, callback);\n                        if files.len() == 1 { should_remove_file(files, dirstack, callback); }\n')))
bug('ft-askdir', 'C23', (PY, FDIR, FDIR.replace('                        dirstack.pop();\n', '                        let path = dirstack.join("/");\n                        let _ = Python::attach(|py| callback.call1(py, (path,)).map(drop));\n                        dirstack.pop();\n')))
bug('ft-start', 'C23', (PY, 'should_remove_file(partition.fst.get_entries_mut(), &mut Vec::new(), &callback);', 'let mut stack = Vec::new();\n        stack.push(partition.part.clone());\n        should_remove_file(partition.fst.get_entries_mut(), &mut stack, &callback);'))
ok('fto-match', '', (PY, FFILE, """                        dirstack.push(name.clone());
                        let path = dirstack.join("/");
                        dirstack.pop();
                        let answer = Python::attach(|py| {
                            let obj = callback.call1(py, (path,))?;
                            obj.is_truthy(py)
                        });
                        match answer {
                            Ok(remove) => !remove,
                            Err(_) => true,
                        }
"""))
ok('fto-if', '', (PY, FFILE, FFILE.replace('                        !should_remove\n', '                        if should_remove {\n                            return false;\n                        }\n                        true\n')))
ok('fto-helper', '', (PY, FFILE, """                        dirstack.push(name.clone());
                        let path = dirstack.join("/");
                        dirstack.pop();
                        !wants(callback, path)
"""), (PY, '        fn should_remove_file(nodes', """        fn wants(callback: &Py<PyAny>, path: String) -> bool {
            Python::attach(|py| callback.call1(py, (path,)).and_then(|obj| obj.is_truthy(py))).unwrap_or(false)
        }
        fn should_remove_file(nodes"""))
ok('fto-common', '', (PY, """                match node {
                    FstNode::Directory { name, files } => {
""" + FDIR + """                    },
                    FstNode::File { name, .. } => {
""" + FFILE + """                    }
                }
""", """                dirstack.push(node.get_name().to_string());
                let keep = match node {
                    FstNode::Directory { files, .. } => {
                        should_remove_file(files, dirstack, callback);
                        true
                    },
                    FstNode::File { .. } => {
                        let path = dirstack.join("/");
                        let should_remove = Python::attach(|py| {
                            callback.call1(py, (path,)).and_then(|obj| obj.is_truthy(py))
                        }).unwrap_or(false);
                        !should_remove
                    }
                };
                dirstack.pop();
                keep
"""))
ok('fto-extract', '', (PY, FFILE, FFILE.replace('callback.call1(py, (path,)).and_then(|obj| obj.is_truthy(py))', 'callback.call1(py, (path,)).and_then(|obj| obj.bind(py).is_truthy())')))
ok('fto-format', '', (PY, FFILE, FFILE.replace('let path = dirstack.join("/");', 'let mut path = String::new();\n                        for (i, part) in dirstack.iter().enumerate() {\n                            if i > 0 {\n                                path.push(\'/\');\n                            }\n                            path.push_str(part);\n                        }')))
ok('fto-loop', '', (PY, """            nodes.retain_mut(|node| {
                match node {
                    FstNode::Directory { name, files } => {
""" + FDIR + """                    },
                    FstNode::File { name, .. } => {
""" + FFILE + """                    }
                }
            });
""", """            let mut i = 0;
            while i < nodes.len() {
                let keep = match &mut nodes[i] {
                    FstNode::Directory { name, files } => {
""" + FDIR + """                    },
                    FstNode::File { name, .. } => {
""" + FFILE + """                    }
                };
                if keep {
                    i += 1;
                } else {
                    nodes.remove(i);
                }
            }
"""))

# ---------------------------------------------------------------- C13 insertion, lookup, removal
FIND1 = "    let mut cur_node = nodes.iter().find(|n| n.get_name() == cur_part)?;\n    for cur_part in iter {\n"
FIND2 = "                cur_node = files.iter().find(|n| n.get_name() == cur_part)?;\n"
FINDM2 = "                cur_node = files.iter_mut().find(|n| n.get_name() == cur_part)?;\n            }\n            // we"
RM1 = "        let idx = nodes.iter().position(|n| n.get_name() == cur_part)?;\n        return Some(nodes.remove(idx));"
RM2 = "                    let idx = files.iter().position(|n| n.get_name() == cur_part)?;\n                    return Some(files.remove(idx));"
ADDLOOP = "            .binary_search_by(|probe| ordering_ignore_case(probe.get_name(), cur_part))\n        {\n            Ok(pos) => &mut dir_node_files[pos],\n"
ADDLAST = "            dir_node_files.insert(pos, new_node);\n            Ok(None)"
SWAPLAST = "            std::mem::swap(&mut new_node, &mut dir_node_files[pos]);\n            Ok(Some(new_node))"
bug('lp-swap-remove', 'C13', (F, RM1, RM1.replace('remove(', 'swap_remove(')))
bug('lp-swap-remove2', 'C13', (F, RM2, RM2.replace('remove(', 'swap_remove(')))
bug('lp-fold-find', 'C13', (F, FIND2, FIND2.replace('n.get_name() == cur_part', 'n.get_name().eq_ignore_ascii_case(cur_part)')))
bug('lp-fold-mut', 'C13', (F, FINDM2, FINDM2.replace('n.get_name() == cur_part', 'n.get_name().eq_ignore_ascii_case(cur_part)')))
bug('lp-prefix', 'C13', (F, FIND2, FIND2.replace('n.get_name() == cur_part', 'n.get_name().starts_with(cur_part)')))
bug('lp-dirs-only', 'C13', (F, FINDM2, FINDM2.replace('n.get_name() == cur_part', 'n.is_dir() && n.get_name() == cur_part')))
bug('lp-rm-root', 'C13', (F, RM1, "        let idx = nodes.iter().position(|n| n.is_file() && n.get_name() == cur_part)?;\n        return Some(nodes.remove(idx));"))
bug('lp-ins-end', 'C13', (F, ADDLAST, ADDLAST.replace('dir_node_files.insert(pos, new_node)', 'dir_node_files.push(new_node)')))
bug('lp-ins-front', 'C13', (F, ADDLAST, ADDLAST.replace('insert(pos,', 'insert(0,')))
bug('lp-ins-next', 'C13', (F, ADDLAST, "            let pos = (pos + 1).min(dir_node_files.len());\n" + ADDLAST))
bug('lp-cmp-args', 'C13', (F, ADDLOOP, ADDLOOP.replace('ordering_ignore_case(probe.get_name(), cur_part)', 'ordering_ignore_case(cur_part, probe.get_name())')))
bug('lp-cmp-case', 'C13', (F, ADDLOOP, ADDLOOP.replace('ordering_ignore_case(probe.get_name(), cur_part)', 'probe.get_name().as_str().cmp(cur_part)')))
bug('lp-dup', 'C13', (F, SWAPLAST, "            dir_node_files.insert(pos, new_node);\n            Ok(None)"))
bug('lp-ret-none', 'C13', (F, SWAPLAST, "            dir_node_files[pos] = new_node;\n            Ok(None)"))
bug('lp-file-kept', 'C13', (F, SWAPLAST, "            Ok(Some(new_node))"))
bug('lp-swap-insert', 'C13', (F, SWAPLAST, "            let old = dir_node_files.swap_remove(pos);\n            dir_node_files.insert(pos, new_node);\n            Ok(Some(old))"))
bug('lp-newdir-lower', 'C13', (F, "                    name: cur_part.to_string(),\n                    files: Vec::new(),\n                };\n                dir_node_files", "                    name: cur_part.to_ascii_lowercase(),\n                    files: Vec::new(),\n                };\n                dir_node_files"))
bug('lp-newdir-file', 'C13', (F, "                let new_dir_node = FstNode::Directory {\n                    name: cur_part.to_string(),\n                    files: Vec::new(),\n                };\n                dir_node_files", "                let new_dir_node = FstNode::File {\n                    name: cur_part.to_string(),\n                    offset: 0,\n                    length: 0,\n                };\n                dir_node_files"))
bug('lp-file-ok', 'C13', (F, "            // can't insert when the node is a file\n            FstNode::File { .. } => return Err(()),\n        };\n    }", "            // can't insert when the node is a file\n            FstNode::File { .. } => return Ok(None),\n        };\n    }"))
bug('lp-split', 'C13', (F, "self.remove_node_iter(s.split('/').filter(|p| !p.is_empty()))", "self.remove_node_iter(s.split('/'))"))
bug('lp-split2', 'C13', (F, "self.find_node_iter_mut(s.split('/').filter(|p| !p.is_empty()))", "self.find_node_iter_mut(s.split('\\\\').filter(|p| !p.is_empty()))"))
bug('lp-split3', 'C13', (F, "self.add_node_iter(s.split('/').filter(|p| !p.is_empty()), node)", "self.add_node_iter(s.split('/').skip(1).filter(|p| !p.is_empty()), node)"))
bug('lp-split4', 'C13', (F, "self.find_node_iter(s.split('/').filter(|p| !p.is_empty()))", "self.find_node_iter(s.split('/').filter(|p| p.len() > 1))"))
bug('lp-ord-once', 'C13', (F, ".map(|b| b.to_ascii_lowercase())\n        .chain(once(0))\n        .zip(s2.bytes().map(|b| b.to_ascii_lowercase()).chain(once(0)))", ".map(|b| b.to_ascii_lowercase())\n        .zip(s2.bytes().map(|b| b.to_ascii_lowercase()))"))
bug('lp-ord-ff', 'C13', (F, "        .chain(once(0))\n        .zip(s2.bytes().map(|b| b.to_ascii_lowercase()).chain(once(0)))", "        .chain(once(0xff))\n        .zip(s2.bytes().map(|b| b.to_ascii_lowercase()).chain(once(0xff)))"))
bug('lp-ord-case', 'C13', (F, ".zip(s2.bytes().map(|b| b.to_ascii_lowercase())", ".zip(s2.bytes()"))
bug('lp-ord-upper', 'C13', (F, "        .map(|b| b.to_ascii_lowercase())\n        .chain(once(0))\n        .zip(s2.bytes().map(|b| b.to_ascii_lowercase())", "        .map(|b| b.to_ascii_uppercase())\n        .chain(once(0))\n        .zip(s2.bytes().map(|b| b.to_ascii_uppercase())"))
bug('lp-ord-rev', 'C13', (F, "chr1.cmp(&chr2)", "chr2.cmp(&chr1)"))
bug('lp-sort-flat', 'C13', (F, "                FstNode::Directory { files, .. } => Self::fix_ordering_rec(files),\n                _ => {}", "                FstNode::Directory { files, .. } => files.sort_unstable_by(FstNode::node_compare),\n                _ => {}"))
bug('lp-sort-none', 'C13', (F, "FstNode::Directory { files, .. } => Self::fix_ordering_rec(files),", "FstNode::Directory { files, .. } if files.len() > 2 => Self::fix_ordering_rec(files),"))
bug('lp-sort-rev', 'C13', (F, "nodes.sort_unstable_by(FstNode::node_compare);", "nodes.sort_unstable_by(|a, b| b.node_compare(a));"))
bug('lp-sort-name', 'C13', (F, "nodes.sort_unstable_by(FstNode::node_compare);", "nodes.sort_unstable_by(|a, b| a.get_name().cmp(b.get_name()));"))
bug('lp-peek', 'C13', (F, "                if peek_iter.peek().is_some() {\n                    cur_node = files.iter_mut().find(|n| n.get_name() == cur_part)?;\n                } else {", "                if peek_iter.peek().is_some() && files.len() > 1 {\n                    cur_node = files.iter_mut().find(|n| n.get_name() == cur_part)?;\n                } else {"))
bug('lp-file-find', 'C13', (F, "            FstNode::File { .. } => return None,\n        }\n    }\n    Some(cur_node)", "            FstNode::File { .. } => return Some(cur_node),\n        }\n    }\n    Some(cur_node)"))
bug('lp-empty-find', 'C13', (F, FIND1, "    let mut cur_node = nodes.iter().find(|n| n.get_name() == cur_part)?;\n    for cur_part in iter.skip(1) {\n"))
ok('lo-sort-closure', 'C13', (F, "nodes.sort_unstable_by(FstNode::node_compare);", "nodes.sort_by(|a, b| a.node_compare(b));"))
ok('lo-sort-iflet', 'C13', (F, "            match node {\n                FstNode::Directory { files, .. } => Self::fix_ordering_rec(files),\n                _ => {}\n            }", "            if let FstNode::Directory { files, .. } = node {\n                Self::fix_ordering_rec(files);\n            }"))
ok('lo-sort-iter', 'C13', (F, "        for node in nodes {\n            match node {\n                FstNode::Directory { files, .. } => Self::fix", "        for node in nodes.iter_mut() {\n            match node {\n                FstNode::Directory { files, .. } => Self::fix"))
ok('lo-replace', 'C13', (F, SWAPLAST, "            let old = std::mem::replace(&mut dir_node_files[pos], new_node);\n            Ok(Some(old))"))
ok('lo-while', 'C13', (F, FIND1, "    let mut cur_node = nodes.iter().find(|n| n.get_name() == cur_part)?;\n    while let Some(cur_part) = iter.next() {\n"))
ok('lo-find-loop', 'C13', (F, FIND1, "    let mut found = None;\n    for n in nodes.iter() {\n        if n.get_name() == cur_part {\n            found = Some(n);\n            break;\n        }\n    }\n    let mut cur_node = found?;\n    for cur_part in iter {\n"))
ok('lo-let-else', 'C13', (F, "        match cur_node {\n            FstNode::Directory { files, .. } => {\n                cur_node = files.iter().find(|n| n.get_name() == cur_part)?;\n            }\n            // we can't descend into files\n            FstNode::File { .. } => return None,\n        }\n", "        let FstNode::Directory { files, .. } = cur_node else {\n            return None;\n        };\n        cur_node = files.iter().find(|n| n.get_name() == cur_part)?;\n"))
ok('lo-by-name', 'C13', (F, "pub fn find_node_iter<'a, 'b, I>(nodes", "fn by_name<'a>(nodes: &'a [FstNode], name: &str) -> Option<&'a FstNode> {\n    nodes.iter().find(|n| n.get_name() == name)\n}\n\npub fn find_node_iter<'a, 'b, I>(nodes"), (F, FIND2, "                cur_node = by_name(files, cur_part)?;\n"), (F, "    let mut cur_node = nodes.iter().find(|n| n.get_name() == cur_part)?;", "    let mut cur_node = by_name(nodes, cur_part)?;"))
ok('lo-eq', 'C13', (F, FIND2, FIND2.replace('n.get_name() == cur_part', 'cur_part == n.get_name()')))
ok('lo-flip-cmp', 'C13', (F, ADDLOOP, ADDLOOP.replace('ordering_ignore_case(probe.get_name(), cur_part)', 'ordering_ignore_case(cur_part, probe.get_name()).reverse()')))
ok('lo-split-str', 'C13', (F, "self.find_node_iter(s.split('/').filter(|p| !p.is_empty()))", "self.find_node_iter(s.split(\"/\").filter(|p| p.len() > 0))"))
ok('lo-parts', 'C13', (F, "    /// Returns an immutable reference to the FstNode by path if it's found\n    pub fn find_node_path<'a>", "    fn parts(s: &str) -> impl Iterator<Item = &str> {\n        s.split('/').filter(|p| !p.is_empty())\n    }\n\n    pub fn find_node_path<'a>"), (F, "self.find_node_iter(s.split('/').filter(|p| !p.is_empty()))", "self.find_node_iter(Self::parts(s))"), (F, "self.add_node_iter(s.split('/').filter(|p| !p.is_empty()), node)", "self.add_node_iter(Self::parts(s), node)"))
ok('lo-ord-if', 'C13', (F, "        match chr1.cmp(&chr2) {\n            Ordering::Equal => continue,\n            o => return o,\n        };", "        if chr1 != chr2 {\n            return chr1.cmp(&chr2);\n        }"))
ok('lo-ord-then', 'C13', (F, "        match chr1.cmp(&chr2) {\n            Ordering::Equal => continue,\n            o => return o,\n        };", "        let o = chr1.cmp(&chr2);\n        if o != Ordering::Equal {\n            return o;\n        }"))
ok('lo-ord-whole', 'C13', (F, "    for (chr1, chr2) in s1\n        .bytes()\n        .map(|b| b.to_ascii_lowercase())\n        .chain(once(0))\n        .zip(s2.bytes().map(|b| b.to_ascii_lowercase()).chain(once(0)))\n    {\n        match chr1.cmp(&chr2) {\n            Ordering::Equal => continue,\n            o => return o,\n        };\n    }\n    Ordering::Equal", "    let _ = once(0);\n    s1.to_ascii_lowercase().cmp(&s2.to_ascii_lowercase())"))
ok('lo-ord-iter', 'C13', (F, "    for (chr1, chr2) in s1\n        .bytes()\n        .map(|b| b.to_ascii_lowercase())\n        .chain(once(0))\n        .zip(s2.bytes().map(|b| b.to_ascii_lowercase()).chain(once(0)))\n    {\n        match chr1.cmp(&chr2) {\n            Ordering::Equal => continue,\n            o => return o,\n        };\n    }\n    Ordering::Equal", "    let _ = once(0);\n    s1.bytes().map(|b| b.to_ascii_lowercase()).cmp(s2.bytes().map(|b| b.to_ascii_lowercase()))"))
ok('lo-rm-retain', 'C13', (F, RM1, "        let mut out = None;\n        if let Some(idx) = nodes.iter().position(|n| n.get_name() == cur_part) {\n            out = Some(nodes.remove(idx));\n        }\n        return out;"))
ok('lo-find-or-create', 'C13', (F, "pub fn add_node_iter<'a, 'b, I>(\n    nodes", "fn find_or_create_dir<'a>(nodes: &'a mut Vec<FstNode>, name: &str) -> &'a mut FstNode {\n    let pos = match nodes.binary_search_by(|probe| ordering_ignore_case(probe.get_name(), name)) {\n        Ok(pos) => pos,\n        Err(pos) => {\n            nodes.insert(pos, FstNode::create_dir(name.to_string()));\n            pos\n        }\n    };\n    &mut nodes[pos]\n}\n\npub fn add_node_iter<'a, 'b, I>(\n    nodes"), (F, """        let node = match dir_node_files
            .binary_search_by(|probe| ordering_ignore_case(probe.get_name(), cur_part))
        {
            Ok(pos) => &mut dir_node_files[pos],
            Err(pos) => {
                // we need to either create a new directory
                let new_dir_node = FstNode::Directory {
                    name: cur_part.to_string(),
                    files: Vec::new(),
                };
                dir_node_files.insert(pos, new_dir_node);
                &mut dir_node_files[pos]
            }
        };
""", "        let node = find_or_create_dir(dir_node_files, cur_part);\n"))

# ------------------------------------------------------------------ C11
NPUSH = """        let name_offset = str_bytes.len() as u32;
        str_bytes.extend_from_slice(bytes.as_ref());
        str_bytes.push(0);
        name_offsets.push(name_offset as u32);
"""
NREC = """        match node {
            FstNode::Directory { files, .. } => {
                rec_build_fst_bytes(files, name_offsets, str_bytes)?;
            }
            &FstNode::File { .. } => {}
        }
"""
bug('tb-off-after', 'C11', (F, NPUSH, NPUSH.replace("        let name_offset = str_bytes.len() as u32;\n", "").replace("        str_bytes.push(0);\n", "        let name_offset = str_bytes.len() as u32;\n        str_bytes.push(0);\n")))
bug('tb-no-nul', 'C11', (F, NPUSH, NPUSH.replace("        str_bytes.push(0);\n", "")))
bug('tb-nul-empty', 'C11', (F, NPUSH, NPUSH.replace("        str_bytes.push(0);\n", "        if bytes.len() > 1 {\n            str_bytes.push(0);\n        }\n")))
bug('tb-off16', 'C11', (F, NPUSH, NPUSH.replace("str_bytes.len() as u32", "str_bytes.len() as u16 as u32")))
bug('tb-cut', 'C11', (F, NPUSH, NPUSH.replace("extend_from_slice(bytes.as_ref())", "extend_from_slice(&bytes[..bytes.len().min(255)])")))
bug('tb-utf8', 'C11', (F, NPUSH, NPUSH.replace("extend_from_slice(bytes.as_ref())", "extend_from_slice(node.get_name().as_bytes())")))
bug('tb-lower', 'C11', (F, "        let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());", "        let lower = node.get_name().to_lowercase();\n        let (bytes, _, error) = SHIFT_JIS.encode(&lower);"))
bug('tb-nocheck', 'C11', (F, "        if error {\n            return Err(FstToBytesError::InvalidShiftJis", "        if error && node.is_dir() {\n            return Err(FstToBytesError::InvalidShiftJis"))
bug('tb-rec-first', 'C11', (F, NPUSH + NREC, NREC + NPUSH))
bug('tb-rec-empty', 'C11', (F, NREC, NREC.replace("            FstNode::Directory { files, .. } => {", "            FstNode::Directory { files, .. } if files.len() > 1 => {").replace("&FstNode::File { .. } => {}", "_ => {}")))
bug('tb-rev', 'C11', (F, "    for node in nodes {\n        let (bytes, _, error)", "    for node in nodes.iter().rev() {\n        let (bytes, _, error)"))
bug('tb-skip', 'C11', (F, "        let name_offset = str_bytes.len() as u32;\n", "        if bytes.is_empty() {\n            continue;\n        }\n        let name_offset = str_bytes.len() as u32;\n"))
bug('tb-rootoff', 'C11', (F, "        str_offsets.push(0);\n        str_bytes.push(0);\n", "        str_bytes.push(0);\n"))
bug('tb-enc', 'C11', (F, "SHIFT_JIS.encode(node.get_name())", "encoding_rs::EUC_JP.encode(node.get_name())"))
bug('tb-trunc-bytes', 'C11', (F, "        Ok(FstToBytes {\n            str_offsets,\n", "        str_bytes.pop();\n        Ok(FstToBytes {\n            str_offsets,\n"))
PIDX = "        let parent_idx = idx.wrapping_sub(1);\n"
bug('tr-parent', 'C11', (F, "                        offset: parent_idx,", "                        offset: this_idx as u32 - 1,"))
bug('tr-parent0', 'C11', (F, PIDX, "        let parent_idx = *idx;\n"))
bug('tr-end', 'C11', (F, "                        node.length = *idx;", "                        node.length = *idx - 1;"))
bug('tr-end-count', 'C11', (F, "                        node.length = *idx;", "                        node.length = this_idx as u32 + 1 + files.len() as u32;"))
bug('tr-noend', 'C11', (F, "                    if let Some(node) = raw_nodes.get_mut(this_idx) {\n", "                    if let Some(node) = raw_nodes.get_mut(this_idx).filter(|_| !files.is_empty()) {\n"))
bug('tr-endat', 'C11', (F, "raw_nodes.get_mut(this_idx)", "raw_nodes.get_mut(parent_idx as usize)"))
bug('tr-noend2', 'C11', (F, "                    // this index is always inbounds, but this way it doesn't introduce a panicking branch\n                    if let Some", "                    if files.is_empty() {\n                        continue;\n                    }\n                    if let Some"))
bug('tr-name', 'C11', (F, "let name_offset = str_offsets[this_idx];", "let name_offset = str_offsets[this_idx - 1];"))
bug('tr-offlow', 'C11', (F, "(offset >> 2) as u32", "(offset as u32) >> 2"))
bug('tr-off3', 'C11', (F, "offset: (offset >> 2) as u32", "offset: (offset >> 2) as u32 & !7"))
bug('tr-len', 'C11', (F, "                        offset: (offset >> 2) as u32,\n                        length,", "                        offset: (offset >> 2) as u32,\n                        length: (length + 3) & !3,"))
bug('tr-skip0', 'C11', (F, "        for node in nodes.iter() {\n            let this_idx", "        for node in nodes.iter().filter(|n| !matches!(n, FstNode::File { length: 0, .. })) {\n            let this_idx"))
bug('tr-rootlen', 'C11', (F, "            node.length = idx;\n", "            node.length = idx - 1;\n"))
bug('tr-rootlen2', 'C11', (F, "            node.length = idx;\n", "            node.length = self.fst.entries.len() as u32 + 1;\n"))
bug('tr-namesfirst', 'C11', (F, "        w.write_be(&raw_nodes)?;\n        w.write_all(&self.str_bytes)?;\n", "        w.write_all(&self.str_bytes)?;\n        w.write_be(&raw_nodes)?;\n"))
bug('tr-names1', 'C11', (F, "        w.write_all(&self.str_bytes)?;\n", "        w.write_all(&self.str_bytes[..self.str_bytes.len() - 1])?;\n"))
bug('tr-word', 'C11', (F, "(if *is_directory { 1 } else { 0 }) << 24 | name_offset", "(if *is_directory { 1 } else { 0 }) << 16 | name_offset"))
bug('tr-mask', 'C11', (F, "type_and_name_offset & 0xffffff", "type_and_name_offset & 0xffff"))
bug('tr-mask2', 'C11', (F, "(type_and_name_offset >> 24) != 0", "(type_and_name_offset >> 20) != 0"))
bug('tp-noshift', 'C11', (F, "offset: (node.offset as u64) << 2", "offset: (node.offset << 2) as u64"))
bug('tp-end', 'C11', (F, "                    node.length,\n                    cur_idx,", "                    node.length - 1,\n                    cur_idx,"))
bug('tp-end-parent', 'C11', (F, "                    node.length,\n                    cur_idx,", "                    children_end,\n                    cur_idx,"))
bug('tp-noinc', 'C11', (F, "            *cur_idx += 1;\n            if node.is_directory {", "            *cur_idx += 1 + (node.length == 0) as u32;\n            if node.is_directory {"))
bug('tp-rootname', 'C11', (F, "str_offset + node.name_offset as u64", "str_offset + raw_nodes[0].name_offset as u64 + node.name_offset as u64"))
bug('tp-name-next', 'C11', (F, "str_offset + node.name_offset as u64", "str_offset + 1 + node.name_offset as u64"))
bug('tp-depth', 'C11', (F, "const MAX_FST_DEPTH: usize = 256;", "const MAX_FST_DEPTH: usize = 8;"))
bug('tp-swap', 'C11', (F, "                    offset: (node.offset as u64) << 2,\n                    length: node.length,", "                    offset: (node.length as u64) << 2,\n                    length: node.offset,"))
bug('tp-empty', 'C11', (F, "                nodes.push(FstNode::Directory { name, files });", "                if !files.is_empty() {\n                    nodes.push(FstNode::Directory { name, files });\n                }"))
bug('tp-zero', 'C11', (F, "            } else {\n                nodes.push(FstNode::File {", "            } else if node.length > 0 {\n                nodes.push(FstNode::File {"))
bug('tp-le', 'C11', (F, "while *cur_idx < children_end {", "while *cur_idx <= children_end {"), (F, "        if *cur_idx != children_end {\n            return Err(invalid_fst(str_offset));\n        }\n        Ok(nodes)", "        Ok(nodes)"))
bug('tp-last', 'C11', (F, "while *cur_idx < children_end {", "while *cur_idx + 1 < children_end {"), (F, "        if *cur_idx != children_end {\n            return Err(invalid_fst(str_offset));\n        }\n        Ok(nodes)", "        Ok(nodes)"))
bug('tp-count', 'C11', (F, "        let total_node_count = root_node.length - 1;\n", "        let total_node_count = root_node.length;\n"))
bug('tp-start', 'C11', (F, "&mut 1, 0)?;", "&mut 0, 0)?;"))
bug('tp-kind', 'C11', (F, "            if node.is_directory {\n                let files", "            if node.is_directory && node.length > *cur_idx {\n                let files"))
bug('tp-insert', 'C11', (F, "nodes.push(rs.read_be::<RawFstNode>()?);", "nodes.insert(1, rs.read_be::<RawFstNode>()?);"))
bug('tp-trim', 'C11', (F, "    Ok(res.into())\n", "    Ok(res.trim().to_string())\n"))
ok('tok-len', 'C11', (F, NPUSH, NPUSH.replace("        let name_offset = str_bytes.len() as u32;\n", "").replace("        name_offsets.push(name_offset as u32);\n", "").replace("        str_bytes.extend", "        name_offsets.push(str_bytes.len() as u32);\n        str_bytes.extend")))
ok('tok-iflet', 'C11', (F, NREC, "        if let FstNode::Directory { files, .. } = node {\n            rec_build_fst_bytes(files, name_offsets, str_bytes)?;\n        }\n"))
ok('tok-helper', 'C11', (F, "fn rec_build_fst_bytes(", "fn push_name(bytes: &[u8], name_offsets: &mut Vec<u32>, str_bytes: &mut Vec<u8>) {\n    let off = str_bytes.len() as u32;\n    str_bytes.extend_from_slice(bytes);\n    str_bytes.push(0);\n    name_offsets.push(off);\n}\n\nfn rec_build_fst_bytes("), (F, NPUSH, "        push_name(&bytes, name_offsets, str_bytes);\n"))
ok('tok-vec', 'C11', (F, NPUSH, NPUSH.replace("        str_bytes.extend_from_slice(bytes.as_ref());\n        str_bytes.push(0);\n", "        let mut enc = bytes.into_owned();\n        enc.push(0);\n        str_bytes.append(&mut enc);\n")))
ok('tok-div', 'C11', (F, "(offset >> 2) as u32", "(offset / 4) as u32"), (F, "(node.offset as u64) << 2", "u64::from(node.offset) * 4"))
ok('tok-index', 'C11', (F, "                    if let Some(node) = raw_nodes.get_mut(this_idx) {\n                        node.length = *idx;\n                    }", "                    raw_nodes[this_idx].length = *idx;"))
ok('tok-rawlen', 'C11', (F, "                    if let Some(node) = raw_nodes.get_mut(this_idx) {\n                        node.length = *idx;\n                    }", "                    raw_nodes[this_idx].length = raw_nodes.len() as u32;"), (F, "        if let Some(node) = raw_nodes.get_mut(0) {\n            node.length = idx;\n        }\n", "        let total = raw_nodes.len() as u32;\n        raw_nodes[0].length = total;\n"))
ok('tok-rawlen2', 'C11', (F, "                    if let Some(node) = raw_nodes.get_mut(this_idx) {\n                        node.length = *idx;\n                    }", "                    let end = raw_nodes.len() as u32;\n                    if let Some(dir) = raw_nodes.get_mut(this_idx) {\n                        dir.length = end;\n                    }"))
ok('tok-inc-late', 'C11', (F, "            let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;\n            *cur_idx += 1;\n", "            *cur_idx += 1;\n            let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;\n"))
ok('tok-match', 'C11', (F, """            if node.is_directory {
                let files = Self::transform_fst_rec(
                    rs,
                    str_offset,
                    raw_nodes,
                    node.length,
                    cur_idx,
                    depth + 1,
                )?;
                nodes.push(FstNode::Directory { name, files });
            } else {
                nodes.push(FstNode::File {
                    name,
                    offset: (node.offset as u64) << 2,
                    length: node.length,
                });
            }
""", """            let entry = if node.is_directory {
                let files = Self::transform_fst_rec(
                    rs,
                    str_offset,
                    raw_nodes,
                    node.length,
                    cur_idx,
                    depth + 1,
                )?;
                FstNode::Directory { name, files }
            } else {
                FstNode::File {
                    name,
                    offset: (node.offset as u64) << 2,
                    length: node.length,
                }
            };
            nodes.push(entry);
"""))
ok('tok-strpos', 'C11', (F, "        let str_offset = rs.stream_position()?;\n", "        let str_offset = offset + u64::from(root_len) * 12;\n"), (F, "        let mut nodes = Vec::new();\n        nodes.push(root_node);\n", "        let root_len = root_node.length;\n        let mut nodes = Vec::new();\n        nodes.push(root_node);\n"))
ok('tok-range1', 'C11', (F, "for _ in 0..total_node_count {", "for _ in 1..=total_node_count {"))
ok('tok-cap', 'C11', (F, "        let mut nodes = Vec::new();\n        nodes.push(root_node);\n", "        let mut nodes = vec![root_node];\n"))
ok('tok-loop', 'C11', (F, "while *cur_idx < children_end {\n", "loop {\n            if *cur_idx >= children_end {\n                break;\n            }\n"))
ok('tok-pushdir', 'C11', (F, "        for node in nodes.iter() {\n            let this_idx = *idx as usize;\n", "        let mut it = nodes.iter();\n        while let Some(node) = it.next() {\n            let this_idx = *idx as usize;\n"))
ok('tok-word', 'C11', (F, "(if *is_directory { 1 } else { 0 }) << 24 | name_offset", "(u32::from(*is_directory) << 24) | *name_offset"))
ok('tok-word2', 'C11', (F, "(type_and_name_offset >> 24) != 0", "(type_and_name_offset & 0xff00_0000) != 0"))
ok('tok-word3', 'C11', (F, "type_and_name_offset & 0xffffff", "(type_and_name_offset << 8) >> 8"))
ok('tok-common', 'C11', (F, """            *idx += 1;
            match node {
                FstNode::Directory { files, .. } => {""", """            let next = *idx + 1;
            *idx = next;
            match node {
                FstNode::Directory { files, .. } => {"""))
ok('tok-dirpush', 'C11', (F, "                    raw_nodes.push(RawFstNode {\n                        is_directory: false,\n                        name_offset,\n                        offset: (offset >> 2) as u32,\n                        length,\n                    });", "                    let raw = RawFstNode {\n                        is_directory: false,\n                        name_offset,\n                        offset: (offset >> 2) as u32,\n                        length,\n                    };\n                    raw_nodes.push(raw);"))

# ---- C03
bug('h-open', 'C03', (NR, "let header: DiscHeader = rs.read_be()?;", "let header: DiscHeader = rs.read_be().expect(\"disc header\");"))
bug('h-parts-cap', 'C03', (ST, "        if part_count > 0 {\n", "        if part_count > 0 {\n            parts.reserve(part_count as usize);\n"))
bug('h-fst-cap', 'C03', (F, "        let mut nodes = Vec::new();\n        nodes.push(root_node);", "        let mut nodes = Vec::with_capacity(root_node.length as usize);\n        nodes.push(root_node);"))
bug('h-dol-add', 'C03', (NR, ".reduce(|accum, item| accum.saturating_add(item))", ".reduce(|accum, item| accum + item)"))
bug('h-dol-add2', 'C03', (NR, "        dol_size = dol_size.saturating_add(\n", "        dol_size = dol_size + (\n"), (NR, "                .unwrap(),\n        );", "                .unwrap()\n        );"))
bug('h-dol-sum', 'C03', (NR, ".cloned()\n                .reduce(|accum, item| accum.saturating_add(item))\n                .unwrap(),", ".sum::<u32>(),"))
bug('h-dol-fold', 'C03', (NR, ".cloned()\n                .reduce(|accum, item| accum.saturating_add(item))\n                .unwrap(),", ".fold(0, |accum, item| accum + *item),"))
bug('h-dol-for', 'C03', (NR, """        dol_size = dol_size.saturating_add(
            dol_header
                .text_sizes
                .iter()
                .chain(dol_header.data_sizes.iter())
                .cloned()
                .reduce(|accum, item| accum.saturating_add(item))
                .unwrap(),
        );
""", """        for size in dol_header.text_sizes {
            dol_size += size;
        }
        for size in dol_header.data_sizes {
            dol_size += size;
        }
"""))
bug('h-app', 'C03', (NR, "32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;", "(32 + apploader_header.size1 + apploader_header.size2) as u64;"))
bug('h-fst-idx', 'C03', (F, """            let Some(node) = raw_nodes.get(*cur_idx as usize) else {
                return Err(invalid_fst(str_offset));
            };
""", """            let node = &raw_nodes[*cur_idx as usize];
"""))
bug('h-fst-depth', 'C03', (F, """        if depth > MAX_FST_DEPTH {
            return Err(invalid_fst(str_offset));
        }
""", ""))
bug('h-fst-depth2', 'C03', (F, "                    cur_idx,\n                    depth + 1,\n", "                    cur_idx,\n                    depth,\n"))
bug('h-fst-root', 'C03', (F, " || root_node.length == 0 {", " {"))
bug('h-sjis', 'C03', (F, """        return Err(binrw::Error::Custom {
            pos: offset,
            err: Box::new(format!("invalid shiftjis: {}", res)),
        });
""", """        panic!("invalid shiftjis: {}", res);
"""))
bug('h-sjis2', 'C03', (F, """    let (res, _, err) = SHIFT_JIS.decode(&null_str);
    if err {
        return Err(binrw::Error::Custom {
            pos: offset,
            err: Box::new(format!("invalid shiftjis: {}", res)),
        });
    }
""", """    let res = SHIFT_JIS.decode_without_bom_handling_and_without_replacement(&null_str).unwrap();
"""))
bug('h-key', 'C03', (ST, """    #[br(assert((common_key_idx as usize) < COMMON_KEYS.len(), "invalid common key index"))]\n""", ""))
bug('h-py-part', 'C03', (PY, """            .cloned()
            .ok_or_else(|| {
                exceptions::PyException::new_err(format!("section {section} doesn't exist!"))
            })?;
        let partition_reader""", """            .cloned()
            .expect("section doesn't exist!");
        let partition_reader"""))
bug('h-py-open', 'C03', (PY, """        let iso = WiiIsoReader::open(iso_file)
            .map_err(|e| exceptions::PyException::new_err(format!("{e:?}, file: {path:?}")))?;""", """        let iso = WiiIsoReader::open(iso_file).expect("not an image");"""))
bug('h-cli-open', 'C03', (CLI, "let reader = WiiIsoReader::open(f)?;", "let reader = WiiIsoReader::open(f).unwrap();"))
bug('h-cli-part', 'C03', (CLI, ".ok_or_else(|| MyError::SectionNotFound(part_type))?;", ".unwrap();"))
bug('h-reserve', 'C03', (NR, "buffer.try_reserve(length as usize)?;", "buffer.reserve(length as usize);"))
bug('h-mul', 'C03', (F, "offset: (node.offset as u64) << 2,", "offset: (node.offset * 4) as u64,"))
bug('h-tmd', 'C03', (NR, """            self.get_partition_offset() + *self.wii_partition_header.tmd_off,
        ))?;
        reader.file.read_be()""", """            self.get_partition_offset() + *self.wii_partition_header.tmd_off,
        ))?;
        Ok(reader.file.read_be().unwrap())"""))
bug('h-size', 'C03', (NR, "            data_size: *wii_partition_header.data_size,", "            data_size: *wii_partition_header.data_size - 0x8000,"))
ok('hok-cap', 'C03', (F, "        let mut nodes = Vec::new();\n        nodes.push(root_node);", "        let mut nodes = Vec::with_capacity((root_node.length as usize).min(0x4000));\n        nodes.push(root_node);"))
ok('hok-fold', 'C03', (NR, ".cloned()\n                .reduce(|accum, item| accum.saturating_add(item))\n                .unwrap(),", ".fold(0u32, |accum, item| accum.saturating_add(*item)),"))
ok('hok-sum64', 'C03', (NR, """        let mut dol_size = dol_header.text_off[0];
        dol_size = dol_size.saturating_add(
            dol_header
                .text_sizes
                .iter()
                .chain(dol_header.data_sizes.iter())
                .cloned()
                .reduce(|accum, item| accum.saturating_add(item))
                .unwrap(),
        );
        if dol_size == u32::MAX {""", """        let dol_size = u64::from(dol_header.text_off[0])
            + dol_header
                .text_sizes
                .iter()
                .chain(dol_header.data_sizes.iter())
                .map(|x| u64::from(*x))
                .sum::<u64>();
        if dol_size >= u32::MAX as u64 {"""))
ok('hok-fold64', 'C03', (NR, """        let mut dol_size = dol_header.text_off[0];
        dol_size = dol_size.saturating_add(
            dol_header
                .text_sizes
                .iter()
                .chain(dol_header.data_sizes.iter())
                .cloned()
                .reduce(|accum, item| accum.saturating_add(item))
                .unwrap(),
        );
        if dol_size == u32::MAX {""", """        let dol_size = dol_header
                .text_sizes
                .iter()
                .chain(dol_header.data_sizes.iter())
                .fold(dol_header.text_off[0] as u64, |a, x| a + *x as u64);
        if dol_size >= u32::MAX as u64 {"""))
ok('hok-for', 'C03', (NR, """        dol_size = dol_size.saturating_add(
            dol_header
                .text_sizes
                .iter()
                .chain(dol_header.data_sizes.iter())
                .cloned()
                .reduce(|accum, item| accum.saturating_add(item))
                .unwrap(),
        );
""", """        for size in dol_header.text_sizes.iter().chain(dol_header.data_sizes.iter()) {
            dol_size = dol_size.saturating_add(*size);
        }
"""))
ok('hok-checked', 'C03', (NR, """        let mut dol_size = dol_header.text_off[0];
        dol_size = dol_size.saturating_add(
            dol_header
                .text_sizes
                .iter()
                .chain(dol_header.data_sizes.iter())
                .cloned()
                .reduce(|accum, item| accum.saturating_add(item))
                .unwrap(),
        );
        if dol_size == u32::MAX {""", """        let dol_size = dol_header
                .text_sizes
                .iter()
                .chain(dol_header.data_sizes.iter())
                .try_fold(dol_header.text_off[0], |a, x| a.checked_add(*x)).unwrap_or(u32::MAX);
        if dol_size == u32::MAX {"""))
ok('hok-tryinto', 'C03', (F, "raw_nodes.get(*cur_idx as usize)", "raw_nodes.get(usize::try_from(*cur_idx).unwrap())"))
ok('hok-idx', 'C03', (F, """            let Some(node) = raw_nodes.get(*cur_idx as usize) else {
                return Err(invalid_fst(str_offset));
            };
""", """            let idx = *cur_idx as usize;
            if idx >= raw_nodes.len() {
                return Err(invalid_fst(str_offset));
            }
            let node = &raw_nodes[idx];
"""))
ok('hok-depth', 'C03', (F, """        if depth > MAX_FST_DEPTH {
            return Err(invalid_fst(str_offset));
        }
""", ""), (F, """            if node.is_directory {
                let files""", """            if node.is_directory {
                if depth == MAX_FST_DEPTH {
                    return Err(invalid_fst(str_offset));
                }
                let files"""))
ok('hok-depth2', 'C03', (F, "if depth > MAX_FST_DEPTH {", "if depth == 0 {"), (F, "&nodes, total_node_count + 1, &mut 1, 0)?", "&nodes, total_node_count + 1, &mut 1, MAX_FST_DEPTH)?"), (F, "                    cur_idx,\n                    depth + 1,\n", "                    cur_idx,\n                    depth - 1,\n"))
ok('hok-root', 'C03', (F, " || root_node.length == 0 {", " || root_node.length < 1 {"))
ok('hok-root2', 'C03', (F, " || root_node.length == 0 {", " {"), (F, "let total_node_count = root_node.length - 1;", """let Some(total_node_count) = root_node.length.checked_sub(1) else {
            return Err(invalid_fst(offset));
        };"""))
ok('hok-key', 'C03', (ST, """    #[br(assert((common_key_idx as usize) < COMMON_KEYS.len(), "invalid common key index"))]\n""", """    #[br(assert(common_key_idx < 2, "invalid common key index"))]\n"""))
ok('hok-key2', 'C03', (ST, """    #[br(assert((common_key_idx as usize) < COMMON_KEYS.len(), "invalid common key index"))]\n""", ""), (ST, "Aes128CbcDec::new(&COMMON_KEYS[common_key_idx as usize].into()", "Aes128CbcDec::new(&COMMON_KEYS.get(common_key_idx as usize).copied().unwrap_or(COMMON_KEYS[0]).into()"))
ok('hok-part', 'C03', (CLI, """            let partition = reader
                .partitions()
                .iter()
                .find(|p| p.get_type() == part_type)
                .cloned()
                .ok_or_else(|| MyError::SectionNotFound(part_type))?;
            let part_reader""", """            let found = reader.partitions().iter().find(|p| p.get_type() == part_type);
            if found.is_none() {
                return Err(MyError::SectionNotFound(part_type));
            }
            let partition = found.unwrap().clone();
            let part_reader"""))
ok('hok-pos', 'C03', (NR, "let new_pos = match pos {", "let new_pos: i64 = match pos {"))
ok('hok-idx2', 'C03', (F, """            let Some(node) = raw_nodes.get(*cur_idx as usize) else {
                return Err(invalid_fst(str_offset));
            };
""", """            let node = &raw_nodes[*cur_idx as usize];
"""), (F, """            if node.is_directory {
                let files""", """            if node.is_directory {
                if node.length as usize > raw_nodes.len() {
                    return Err(invalid_fst(str_offset));
                }
                let files"""))
ok('hok-helper', 'C03', (F, "            let Some(node) = raw_nodes.get(*cur_idx as usize) else {\n                return Err(invalid_fst(str_offset));\n            };\n", "            let node = node_at(raw_nodes, *cur_idx, str_offset)?;\n"), (F, "fn invalid_fst(pos: u64)", "fn node_at(nodes: &[RawFstNode], idx: u32, pos: u64) -> binrw::BinResult<&RawFstNode> {\n    nodes.get(idx as usize).ok_or_else(|| invalid_fst(pos))\n}\n\nfn invalid_fst(pos: u64)"))
ok('hok-expect', 'C03', (NR, "                .reduce(|accum, item| accum.saturating_add(item))\n                .unwrap(),", "                .reduce(u32::saturating_add)\n                .expect(\"no sections\"),"))
ok('hok-first', 'C03', (NR, "let mut dol_size = dol_header.text_off[0];", "let mut dol_size = *dol_header.text_off.first().unwrap();"))
ok('hok-regionvec', 'C03', (NR, "        let mut region = [0u8; 32];\n        rs.seek(SeekFrom::Start(0x4E000))?;\n        rs.read_exact(&mut region)?;", "        let mut buf = vec![0u8; 32];\n        rs.seek(SeekFrom::Start(0x4E000))?;\n        rs.read_exact(&mut buf)?;\n        let region: [u8; 32] = buf.try_into().unwrap();"))


# ---- further bugs written from the property texts and the code (z-), and rewrites that keep the behaviour (zok-)
# C05
bug('z-rd-group-hold', 'C05', (NR, '''        if !self.current_group.map_or(false, |g| g == group) {''', '''        if !self.current_group.map_or(false, |g| g >= group) {'''))
bug('z-rd-block63', 'C05', (NR, '''            block += 1;
            if block == 64 {
                block = 0;
                group += 1;
            }''', '''            block += 1;
            if block >= 63 {
                block = 0;
                group += 1;
            }'''))
bug('z-rd-off-keep', 'C05', (NR, '''            offset += count_to_copy;
            offset_in_block_data = 0;''', '''            offset += count_to_copy;
            if offset % GROUP_DATA_SIZE != 0 {
                offset_in_block_data = 0;
            }'''))
bug('z-rd-clear', 'C05 C20', (NR, '''        buffer.clear();
        buffer.try_reserve''', '''        if length != 0 {
            buffer.clear();
        }
        buffer.try_reserve'''))
bug('z-rd-truncpos', 'C05', (NR, '''        let mut block = (self.current_position % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
        let mut offset_in_block_data = self.current_position % BLOCK_DATA_SIZE;
        let mut read_bytes = 0;''', '''        let mut block = (self.current_position as u32 as u64 % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
        let mut offset_in_block_data = self.current_position % BLOCK_DATA_SIZE;
        let mut read_bytes = 0;'''))
bug('z-rd-loadoff', 'C05', (NR, 'rs.seek(SeekFrom::Start(self.data_offset + group * GROUP_SIZE))?;', 'rs.seek(SeekFrom::Start(self.data_offset + (group as u32).wrapping_mul(GROUP_SIZE as u32) as u64))?;'))
bug('z-rd-seekcur', 'C05', (NR, 'SeekFrom::Current(off) => self.crypt_part_state.current_position as i64 + off,', 'SeekFrom::Current(off) => (self.crypt_part_state.current_position as i64).wrapping_add(off as i32 as i64),'))
bug('z-rd-seekclamp', 'C05', (NR, 'self.crypt_part_state.current_position = new_pos.max(0) as u64;', 'self.crypt_part_state.current_position = (new_pos.max(0) as u64).min(self.crypt_part_state.data_size - 1);'))
bug('z-rd-posafter', 'C05', (NR, '''            self.current_position += count_to_copy;
            read_bytes += count_to_copy;
            offset_in_block_data = 0;
            block += 1;
            if block == 64 {
                // read at most one group
                break;
            }
        }
        Ok(read_bytes as usize)''', '''            read_bytes += count_to_copy;
            offset_in_block_data = 0;
            block += 1;
            if block == 64 {
                // read at most one group
                break;
            }
            self.current_position += count_to_copy;
        }
        Ok(read_bytes as usize)'''))
bug('z-rd-vecmove', 'C05', (NR, '''            offset += count_to_copy;
            offset_in_block_data = 0;''', '''            offset += count_to_copy;
            self.current_position = self.current_position.max(offset);
            offset_in_block_data = 0;'''))
bug('z-rd-end', 'C05', (NR, '''            if self.current_position >= self.data_size {
                break;
            }''', '''            if self.current_position > self.data_size {
                break;
            }'''))
# C06
bug('z-wr-skip', 'C06', (RW, '''                        if !((block == 0
                            && offset_in_block == 0x400
                            && buf''', '''                        if !((offset_in_block == 0x400
                            && buf'''))
bug('z-wr-pos-seek', 'C06', (RW, '''            SeekFrom::Current(off) => self.inner.current_position as i64 + off,''', '''            SeekFrom::Current(off) => self.inner.current_position as i32 as i64 + off,'''))
bug('z-wr-limit', 'C06', (RW, '''                self.inner.current_position += bytes_written;
                Ok(bytes_written as usize)''', '''                self.inner.current_position += bytes_written;
                Ok((bytes_written as usize).max(buf.len()))'''))
bug('z-wr-offs', 'C06', (RW, '''                    offset_in_block = BLOCK_DATA_OFFSET;
                }''', '''                    if block != 0 {
                        offset_in_block = BLOCK_DATA_OFFSET;
                    }
                }'''))
bug('z-wr-min', 'C06', (RW, 'let bytes_to_copy = (BLOCK_SIZE - offset_in_block).min(buf.len() as u64);', 'let bytes_to_copy = (BLOCK_SIZE - offset_in_block).min(buf.len() as u32 as u64);'))
bug('z-wr-exact', 'C06', (RW, 'buf.len() >= GROUP_DATA_SIZE as usize)', 'buf.len() >= (GROUP_DATA_SIZE - BLOCK_DATA_SIZE) as usize)'))
# C07
bug('z-wb-slot', 'C07', (RW, '''                                        h3[20 * current_group as usize..][..20]
                                            .as_mut()''', '''                                        h3[20 * (current_group as u8) as usize..][..20]
                                            .as_mut()'''))
bug('z-wb-slot2', 'C07', (RW, '''                                        h3[20 * current_group as usize..][..20]
                                            .as_mut()''', '''                                        h3[20 * group as usize..][..20]
                                            .as_mut()'''))
bug('z-wb-order', 'C07', (RW, '''                                self.file.write_all(self.inner.group_cache.as_ref())?;
                                self.inner''', '''                                self.file.write_all(&self.inner.group_cache[..GROUP_SIZE as usize - 0x8000])?;
                                self.inner'''))
bug('z-wb-flushbeyond', 'C07', (RW, '''                    if self.inner.is_dirty {
                        hash_encrypt_block(
                            &mut self.inner.group_cache,
                            self''', '''                    if self.inner.is_dirty && current_group >= self.inner.filled_groups {
                        hash_encrypt_block(
                            &mut self.inner.group_cache,
                            self'''))
bug('z-wb-flushpos', 'C07', (RW, '''                        self.file.seek(SeekFrom::Start(
                            self.inner.data_offset + GROUP_SIZE * current_group,
                        ))?;
                        self.file.write_all(self.inner.group_cache.as_ref())?;
                        self.inner.filled_groups =''', '''                        self.file.seek(SeekFrom::Start(
                            self.inner.data_offset
                                + GROUP_SIZE * (self.inner.current_position / GROUP_DATA_SIZE),
                        ))?;
                        self.file.write_all(self.inner.group_cache.as_ref())?;
                        self.inner.filled_groups ='''))
bug('z-wb-doublehash', 'C07', (RW, '''                        self.file.flush()?;
                        self.inner.current_group = None;''', '''                        self.file.flush()?;'''))
bug('z-wb-noflush', 'C07', (B, '''        crypto_writer.write_be(&part_disc_header)?;
        crypto_writer.flush()?;''', '''        crypto_writer.write_be(&part_disc_header)?;
        if groups > 1 {
            crypto_writer.flush()?;
        }'''))
# C08
bug('z-ha-iv', 'C08', (RW, '''            Aes128CbcEnc::new(encryption_key.into(), ptr0[0x3D0..][..16].into())
                .encrypt_padded_mut::<NoPadding>(&mut ptr0[0x400..0x8000], 0x8000 - 0x400)''', '''            Aes128CbcEnc::new(encryption_key.into(), ptr0[0x3D0..][..16].into())
                .encrypt_padded_mut::<NoPadding>(&mut ptr0[0x400..0x7FF0], 0x7FF0 - 0x400)'''))
bug('z-ha-h1', 'C08', (RW, '''            hasher.update(&h0);
            h1[c * 20..][..20].copy_from_slice(&hasher.finalize_reset());
            ptr0[..h0.len()].copy_from_slice(&h0);''', '''            hasher.update(&h0[..20 * 30]);
            h1[c * 20..][..20].copy_from_slice(&hasher.finalize_reset());
            ptr0[..h0.len()].copy_from_slice(&h0);'''))
bug('z-ha-h3reset', 'C08', (RW, '''    let mut hasher = Sha1::new();
    let mut h2 = [0u8; 20 * 8];
    for s in 0..8 {
        let ptr1 = &mut buffer[s * 0x40000..];
        let mut h1 = [0u8; 20 * 8];
        for c in 0..8 {''', '''    let mut hasher = Sha1::new();
    let mut h2 = [0u8; 20 * 8];
    let mut h1 = [0u8; 20 * 8];
    for s in 0..8 {
        let ptr1 = &mut buffer[s * 0x40000..];
        for c in s / 7..8 {'''))
bug('z-ha-dec', 'C08', (NR, 'block_data[0x3d0..][..0x10].as_ref().into(),', 'block_data[0x3e0..][..0x10].as_ref().into(),'))
bug('z-ha-deccount', 'C08', (RW, '''        // and decryption is *relatively* fast anyways
        for block in 0..64 {''', '''        // and decryption is *relatively* fast anyways
        for block in 0..63 {'''))
# C09
bug('z-po-early', 'C09', (NR, '''        self.current_group = None;
        rs.seek(SeekFrom::Start(self.data_offset + group * GROUP_SIZE))?;
        rs.read_exact(self.group_cache.as_mut())?;
        self.current_group = Some(group);''', '''        rs.seek(SeekFrom::Start(self.data_offset + group * GROUP_SIZE))?;
        self.current_group = Some(group);
        rs.read_exact(self.group_cache.as_mut())?;'''))
bug('z-po-restore', 'C09', (NR, '''        self.current_group = None;
        rs.seek(SeekFrom::Start(self.data_offset + group * GROUP_SIZE))?;
        rs.read_exact(self.group_cache.as_mut())?;
        self.current_group = Some(group);''', '''        let previous = self.current_group.take();
        rs.seek(SeekFrom::Start(self.data_offset + group * GROUP_SIZE))?;
        if let Err(e) = rs.read_exact(self.group_cache.as_mut()) {
            self.current_group = previous;
            return Err(e);
        }
        self.current_group = Some(group);'''))
bug('z-po-interrupted', 'C09', (NR, '''        rs.read_exact(self.group_cache.as_mut())?;
        self.current_group = Some(group);''', '''        self.current_group = Some(group);
        if let Err(e) = rs.read_exact(self.group_cache.as_mut()) {
            if e.kind() == io::ErrorKind::UnexpectedEof {
                self.current_group = None;
            }
            return Err(e);
        }'''))
bug('z-po-writer', 'C09', (RW, '''                    if self.inner.current_group != Some(group) {
                        if let Some''', '''                    let switching = self.inner.current_group != Some(group);
                    if switching {
                        if let Some'''), (RW, '''                        {
                            // TODO: you *could*''', '''                        {
                            self.inner.current_group = Some(group);
                            // TODO: you *could*'''), (RW, '''        self.inner.is_dirty = false;
        self.inner.current_group = None;
''', '''        self.inner.is_dirty = false;
'''))
# C10
bug('z-wi-cur', 'C10', (W, 'self.pos = position.saturating_sub(self.start);', 'self.pos = position - self.start;'))
bug('z-wi-write', 'C10', (W, '''            let new_len = bytes_left.min(buf.len());
            buf = &buf[..new_len];''', '''            if bytes_left > 0 {
                let new_len = bytes_left.min(buf.len());
                buf = &buf[..new_len];
            }'''))
bug('z-wi-left', 'C10', (W, '.map(|length| length.saturating_sub(self.pos) as usize)', '.map(|length| length.wrapping_sub(self.pos) as usize)'))
bug('z-wi-left32', 'C10', (W, '.map(|length| length.saturating_sub(self.pos) as usize)', '.map(|length| length.saturating_sub(self.pos) as u32 as usize)'))
bug('z-wi-posadv', 'C10', (W, '''            Ok(()) => {
                self.pos += buf.len() as u64;
                Ok(())''', '''            Ok(()) => {
                self.pos += (buf.len() as u64).max(1);
                Ok(())'''))
bug('z-wi-ensure', 'C10', (W, '''            Ok(amt) => {
                self.pos += amt as u64;
                Ok(amt)
            }
            e => {
                self.needs_seek = true;
                e
            }
        }
    }

    fn read_exact''', '''            Ok(amt) => {
                self.pos += amt as u64;
                self.needs_seek = amt == 0;
                Ok(amt)
            }
            e => {
                self.needs_seek = true;
                e
            }
        }
    }

    fn read_exact'''))
# C17
bug('z-ly-parttable', 'C17', (B, 'self.file.write_be(&(0x40020u32 >> 2))?;', 'self.file.write_be(&0x40020u32)?;'))
bug('z-ly-title', 'C17', (ST, '''    #[brw(pad_size_to(64))]
    #[br(map''', '''    #[brw(pad_before(0), pad_size_to(64))]
    #[br(map'''), (ST, '#[brw(pad_before(0x39e))]', '#[brw(pad_before(0x39c))]'))
bug('z-ly-user', 'C17', (ST, '''    pub user_position: u32,
    #[brw(pad_after(4))]
    pub user_sz: u32,''', '''    pub user_sz: u32,
    #[brw(pad_after(4))]
    pub user_position: u32,'''))
bug('z-ly-cert', 'C17', (ST, 'else if key_type == KeyType::Rsa2048 { 256 } else { 0 })]', 'else if key_type == KeyType::Rsa2048 { 260 } else { 0 })]'))
bug('z-ly-ticketiv', 'C08', (ST, '''    let mut iv = [0u8; 0x10];
    iv[..8].copy_from_slice(title_id);
    Aes128CbcEnc''', '''    let mut iv = [0u8; 0x10];
    iv[8..].copy_from_slice(title_id);
    Aes128CbcEnc'''))
# C21 / C20
bug('z-d-append', 'C21', (PY, '.truncate(true)', '.truncate(!dest_path.exists())')) if False else None
# C01
bug('y-01-finish', 'C01', (B, '''    builder.finish()?;
    Ok(())
}

pub struct DirPartitionBuilder''', '''    let _ = builder.finish();
    Ok(())
}

pub struct DirPartitionBuilder'''))
bug('y-01-flush-ok', 'C01', (RW, '''                        self.file.flush()?;
                        self.inner''', '''                        if self.file.flush().is_err() {
                            self.inner.is_dirty = true;
                        }
                        self.inner'''))
bug('y-01-or', 'C01', (NR, 'write_file(&sys_folder, "bi2.bin", &self.read_bi2(reader)?)?;', 'write_file(&sys_folder, "bi2.bin", &self.read_bi2(reader).unwrap_or_default())?;'))
bug('y-01-dirs', 'C01', (PY, 'create_dir_all(filepath.parent().unwrap())?;', 'create_dir_all(filepath.parent().unwrap()).or_else(|e| match e.kind() { std::io::ErrorKind::PermissionDenied => Ok(()), _ => Err(e) })?;'))
bug('y-01-seekswallow', 'C01', (W, '''            self.source
                .seek(SeekFrom::Start(self.pos + self.start))
                .map(drop)
        } else {
            Ok(())
        }''', '''            self.needs_seek = self
                .source
                .seek(SeekFrom::Start(self.pos + self.start))
                .is_err() || self.needs_seek;
        }
        Ok(())'''))
bug('y-01-metadata', 'C01 C22', ('src/dir_reader.rs', '''        let metadata = fs::metadata(&path)?;
        if''', '''        let Ok(metadata) = fs::metadata(&path) else {
            continue;
        };
        if'''))
bug('y-01-map', 'C01', (CLI, '''            .map_err(|e| format!("{e:?}"))?;
        }
    }
    Ok(())''', '''            .map_err(|e| format!("{e:?}"))
            .unwrap_or_else(|e| eprintln!("{e}"));
        }
    }
    Ok(())'''))
# C02
bug('y-02-eofok', 'C02', (PY, '''                            let bytes_read =
                                wii_encrypt_reader.read(&mut buffer[..bytes_to_read])?;''', '''                            let bytes_read = match wii_encrypt_reader.read(&mut buffer[..bytes_to_read]) {
                                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {
                                    bytes_left = 0;
                                    0
                                }
                                r => r?,
                            };'''))
bug('y-02-region', 'C02', (B, '        f.read_exact(&mut region)?;\n        region', '        f.read(&mut region)?;\n        region'))
bug('y-02-take', 'C02', (B, '''        f.read_to_end(&mut self.buf)?;
        Ok((Cow::Borrowed(&self.buf), 0))''', '''        f.take(u32::MAX as u64 >> 1).read_to_end(&mut self.buf)?;
        Ok((Cow::Borrowed(&self.buf), 0))'''), (B, 'let mut f = try_open(fs_path)?;', 'let f = try_open(fs_path)?;'))
bug('y-02-writeonce', 'C02', (NR, '            f.write_all(data)?;\n            f.flush()?;', '            f.write(data)?;\n            f.flush()?;'))
bug('y-02-batch', 'C02 C14', (B, 'crypto_writer.write_all(batch)?;', 'let _n = crypto_writer.write(batch)?;'))
# C04
bug('y-04-dirname', 'C04', (PY, '''                        for name in names {
                            if !is_plain_filename(name) {''', '''                        for (i, name) in names.iter().enumerate() {
                            if i + 1 == names.len() && !is_plain_filename(name) {'''))
bug('y-04-section', 'C19', (PY, '''        let part_type = match section.as_str() {
            "DATA" => WiiPartType::Data,''', '''        let part_type = match section.rsplit('/').next().unwrap_or("") {
            "DATA" => WiiPartType::Data,'''))
# C11
bug('y-11-nameoff', 'C11', (F, 'let name_offset = str_bytes.len() as u32;', 'let name_offset = str_bytes.len() as u16 as u32;'))
bug('y-11-isdir', 'C11', (F, '#[br(calc = (type_and_name_offset >> 24) != 0)]', '#[br(calc = (type_and_name_offset >> 24) == 1 && length != 0)]')) if False else None
bug('y-11-mask', 'C11', (F, '#[br(calc = type_and_name_offset & 0xffffff)]', '#[br(calc = type_and_name_offset & 0xfffff)]'))
# C12
bug('y-12-errdir', 'C12', (F, '''            vec.push(node.get_name());
            f(vec, node)?;
            match node {
                FstNode::Directory { files, .. } => {''', '''            vec.push(node.get_name());
            f(vec, node)?;
            match node {
                FstNode::Directory { files, .. } if !files.is_empty() && vec.len() < 20 => {'''), (F, '''                    Self::callback_all_files_rec(f, files, vec)?;
                }
                FstNode::File { .. } => {}''', '''                    Self::callback_all_files_rec(f, files, vec)?;
                }
                _ => {}'''))
bug('y-12-rename', 'C12', (F, 'if saved_name != node.get_name() {', 'if saved_name.len() != node.get_name().len() {'))
# C13
bug('y-13-case', 'C13', (F, '''                cur_node = files.iter_mut().find(|n| n.get_name() == cur_part)?;
            }
            // we can't descend into files
            FstNode::File { .. } => return None,
        }
    }
    Some(cur_node)''', '''                cur_node = files.iter_mut().find(|n| n.get_name().eq_ignore_ascii_case(cur_part))?;
            }
            // we can't descend into files
            FstNode::File { .. } => return None,
        }
    }
    Some(cur_node)'''))
bug('y-13-order', 'C13', (F, '''        .chain(once(0))
        .zip(s2.bytes().map(|b| b.to_ascii_lowercase()).chain(once(0)))''', '''        .zip(s2.bytes().map(|b| b.to_ascii_lowercase()))'''))
bug('y-13-fix', 'C13', (F, 'nodes.sort_unstable_by(FstNode::node_compare);', 'nodes.sort_unstable_by(|a, b| a.get_name().cmp(b.get_name()));'))
bug('y-13-swap', 'C13', (F, 'return Some(files.remove(idx));', 'return Some(files.swap_remove(idx));'))
# C14
bug('y-14-pad', 'C14', (B, '''            let next_start = align_next(current_position + padding as u64, 0x40);''', '''            let next_start = align_next(current_position + padding as u64, 0x20);'''))
bug('y-14-fstpad', 'C14', (B, 'let data_start = align_next(crypto_writer.stream_position()?, 0x40);', 'let data_start = align_next(*part_disc_header.fst_off + *part_disc_header.fst_sz - 4, 0x40);'))
bug('y-14-size', 'C14', (B, '''            let (data, padding) = partition_def.get_file_data(path)?;
            let mut remaining_data = data.as_ref();''', '''            let (data, padding) = partition_def.get_file_data(path)?;
            let mut remaining_data = data.as_ref();
            if *size != 0 {
                remaining_data = &remaining_data[..remaining_data.len().min(*size as usize)];
            }'''))
bug('y-14-maxsz', 'C14', (B, 'part_disc_header.fst_max_sz = part_disc_header.fst_sz;', 'part_disc_header.fst_max_sz = (*part_disc_header.fst_max_sz).into();'))
# C15
bug('y-15-off', 'C15', (B, 'self.current_data_offset += 0x20000 /* encrypted data off */ + total_encrypted_size;', 'self.current_data_offset += 0x20000 /* encrypted data off */ + total_size;'))
bug('y-15-type', 'C15', (B, '''            part_data_off: part_data_off.into(),
            part_type,''', '''            part_data_off: part_data_off.into(),
            part_type: if self.partitions.is_empty() { WiiPartType::Data } else { part_type },'''))
bug('y-15-count', 'C15', (B, 'for partition in self.partitions.iter() {', 'for partition in self.partitions.iter().take(4) {'))
# C16
bug('y-16-hash', 'C16', (B, 'hasher.update(h3.as_ref());', 'hasher.update(&h3[..groups as usize * 20]);'))
bug('y-16-size', 'C16', (B, '.copy_from_slice(&total_size.to_be_bytes());', '.copy_from_slice(&(total_size >> 2).to_be_bytes());'))
bug('y-16-brk', 'C16', (B, '            if hash[0] == 0 {', '            if hash[0] == 0 || i == 255 {'))
bug('y-16-sig', 'C16', (B, 'tmd_buf.iter_mut().skip(4).take(0x100)', 'tmd_buf.iter_mut().skip(4).take(0xFC)'))
# C18
bug('y-18-case', 'C18', (PY, 'section_path.join("files");', 'section_path.join("Files");'))
bug('y-18-data', 'C18', (PY, 'binrw_write_file(&section_path.join("tmd.bin"), &tmd)?;', 'if !tmd.contents.is_empty() && partition.part != "DATA" {\n                binrw_write_file(&section_path.join("tmd.bin"), &tmd)?;\n            }'))
bug('y-18-region', 'C18', (PY, 'let region = self.iso.get_region().clone();', 'let region = self.iso.get_region()[..16].to_vec();'), (PY, 'fs::write(section_path_disk.join("region.bin"), region)?;', 'fs::write(section_path_disk.join("region.bin"), &region)?;'))
bug('y-18-boot', 'C18', (NR, 'f.write_be(&self.encrypted_header)?;', 'f.write_be(reader.get_header())?;'))
# C19
bug('y-19-prefix', 'C19', (PY, '            .find(|part| part.part == section)\n            .ok_or_else(|| {\n                exceptions::PyException::new_err(format!("section {section} doesn\'t exist!"))\n            })\n    }', '            .find(|part| part.part.starts_with(&section))\n            .ok_or_else(|| {\n                exceptions::PyException::new_err(format!("section {section} doesn\'t exist!"))\n            })\n    }'))
bug('y-19-fallback', 'C19', (CLI, '''                .cloned()
                .ok_or_else(|| MyError::SectionNotFound(part_type))?;

            let''', '''                .or_else(|| reader.partitions().first())
                .cloned()
                .ok_or_else(|| MyError::SectionNotFound(part_type))?;

            let'''))
bug('y-19-trim', 'C19', (ST, 'match s.to_ascii_uppercase().as_str() {', 'match s.trim().to_ascii_uppercase().as_str() {'))
# C20
bug('y-20-app', 'C20', (B, '''    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, DirPartAddErr> {
        self.buf.clear();''', '''    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, DirPartAddErr> {
        if self.buf.capacity() > 0x4000000 {
            self.buf = Vec::new();
        }'''))
bug('y-20-full', 'C20', (PY, 'outfile.write_all(&buffer[..bytes_read])?;', 'outfile.write_all(&buffer[..bytes_to_read])?;'))
# C21
bug('y-21-trunc', 'C21', (CLI, '''                .truncate(true)
''', '''                .truncate(!dest_file.exists())
'''))
# C22
bug('y-22-hidden', 'C22', ('src/dir_reader.rs', '''        let path = entry.path();
        let metadata''', '''        if filename.starts_with("._") {
            continue;
        }
        let path = entry.path();
        let metadata'''))
bug('y-22-dup', 'C22', ('src/dir_reader.rs', 'Ok(None)\n            ) {', 'Ok(None) | Ok(Some(FstNode::File { length: 0, .. }))\n            ) {'))
bug('y-22-symlink', 'C22', ('src/dir_reader.rs', 'let metadata = fs::metadata(&path)?;', 'let metadata = fs::symlink_metadata(&path)?;\n        if metadata.file_type().is_symlink() {\n            continue;\n        }'))
bug('y-22-depth', 'C22', ('src/dir_reader.rs', '            build_fst_from_directory_tree_rec(&path, dirs, fst)?;', '            if dirs.len() < 16 {\n                build_fst_from_directory_tree_rec(&path, dirs, fst)?;\n            }'))
# C23
bug('y-23-top', 'C23', (PY, '''                        let path = dirstack.join("/");
                        dirstack.pop();''', '''                        let path = dirstack.join("/").to_ascii_lowercase();
                        dirstack.pop();'''))
bug('y-23-keepempty', 'C23', (PY, '''                        dirstack.pop();
                        true''', '''                        dirstack.pop();
                        !files.is_empty()'''))
bug('y-23-pop', 'C23', (PY, '''                        should_remove_file(files, dirstack, callback);
                        dirstack.pop();
                        true''', '''                        should_remove_file(files, dirstack, callback);
                        if !files.is_empty() {
                            dirstack.pop();
                        }
                        true'''))
bug('y-23-err', 'C23', (PY, '.unwrap_or(false);', '.unwrap_or(true);')) if False else None
bug('x-19-alias', 'C19', (ST, '"CHANNEL" => Some(WiiPartType::Channel),', '"CHANNEL" | "CHAN" => Some(WiiPartType::Channel),'))
bug('x-19-default', 'C19', (ST, '            "UPDATE" => Some(WiiPartType::Update),\n            _ => None,', '            "UPDATE" => Some(WiiPartType::Update),\n            "" => Some(WiiPartType::Data),\n            _ => None,'))
bug('x-19-swap', 'C19', (ST, '            "CHANNEL" => Some(WiiPartType::Channel),\n            "UPDATE" => Some(WiiPartType::Update),', '            "CHANNEL" => Some(WiiPartType::Update),\n            "UPDATE" => Some(WiiPartType::Channel),'))
bug('x-19-case', 'C19', (ST, 'match s.to_ascii_uppercase().as_str() {', 'match s {'))
ok('xok-19-eqi', 'C19', (ST, '''        match s.to_ascii_uppercase().as_str() {
            "DATA" => Some(WiiPartType::Data),
            "CHANNEL" => Some(WiiPartType::Channel),
            "UPDATE" => Some(WiiPartType::Update),
            _ => None,
        }''', '''        if s.eq_ignore_ascii_case("DATA") {
            Some(WiiPartType::Data)
        } else if s.eq_ignore_ascii_case("CHANNEL") {
            Some(WiiPartType::Channel)
        } else if s.eq_ignore_ascii_case("UPDATE") {
            Some(WiiPartType::Update)
        } else {
            None
        }'''))
ok('xok-19-table', 'C19', (ST, '''        match s.to_ascii_uppercase().as_str() {
            "DATA" => Some(WiiPartType::Data),
            "CHANNEL" => Some(WiiPartType::Channel),
            "UPDATE" => Some(WiiPartType::Update),
            _ => None,
        }''', '''        const NAMES: [(&str, WiiPartType); 3] = [
            ("DATA", WiiPartType::Data),
            ("UPDATE", WiiPartType::Update),
            ("CHANNEL", WiiPartType::Channel),
        ];
        NAMES
            .iter()
            .find(|(name, _)| s.eq_ignore_ascii_case(name))
            .map(|(_, part_type)| *part_type)'''))
ok('xok-19-use', 'C19', (CLI, '''            let part_type = match section.to_ascii_uppercase().as_str() {
                "DATA" => WiiPartType::Data,
                "CHANNEL" => WiiPartType::Channel,
                "UPDATE" => WiiPartType::Update,
                _ => return Err(MyError::InvalidSection(section)),
            };''', '''            let part_type = WiiPartType::try_from_str(&section)
                .ok_or_else(|| MyError::InvalidSection(section.clone()))?;'''))
ok('xok-19-use2', 'C19', (CLI, '''            let part_type = match section.to_ascii_uppercase().as_str() {
                "DATA" => WiiPartType::Data,
                "CHANNEL" => WiiPartType::Channel,
                "UPDATE" => WiiPartType::Update,
                _ => {
                    return Err(MyError::InvalidSection(section));
                }
            };''', '''            let Some(part_type) = WiiPartType::try_from_str(&section) else {
                return Err(MyError::InvalidSection(section));
            };'''))


# ---- refactorings that keep the behaviour, run against all checks (r-)
POS3 = '''        let mut group = offset / GROUP_DATA_SIZE;
        let mut block = (offset % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
        let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
'''
ok('r-locate', '', (NR, POS3, '''        let (mut group, mut block, mut offset_in_block_data) = locate(offset);
'''), (NR, '''        let group = self.current_position / GROUP_DATA_SIZE;
        let mut block = (self.current_position % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
        let mut offset_in_block_data = self.current_position % BLOCK_DATA_SIZE;
''', '''        let (group, mut block, mut offset_in_block_data) = locate(self.current_position);
'''), (NR, 'struct EncryptedPartState {', '''/// group, block in the group and offset in the data of the block
fn locate(position: u64) -> (u64, u64, u64) {
    let group = position / GROUP_DATA_SIZE;
    let in_group = position % GROUP_DATA_SIZE;
    (group, in_group / BLOCK_DATA_SIZE, in_group % BLOCK_DATA_SIZE)
}

struct EncryptedPartState {'''))
ok('r-perstep', '', (NR, POS3, ''), (NR, '''            // we either copy the entire block or what's needed to fill the vec
            let count_to_copy =
                (BLOCK_DATA_SIZE - offset_in_block_data).min(length - buffer.len() as u64);''', '''            let group = offset / GROUP_DATA_SIZE;
            let block = (offset % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
            let offset_in_block_data = offset % BLOCK_DATA_SIZE;
            // we either copy the entire block or what's needed to fill the vec
            let count_to_copy =
                (BLOCK_DATA_SIZE - offset_in_block_data).min(length - buffer.len() as u64);'''), (NR, '''            offset += count_to_copy;
            offset_in_block_data = 0;
            block += 1;
            if block == 64 {
                block = 0;
                group += 1;
            }
''', '''            offset += count_to_copy;
'''))
ok('r-chunks', '', (NR, '''        for block in 0..64 {
            let block_data =
                &mut self.group_cache[(block * BLOCK_SIZE) as usize..][..BLOCK_SIZE as usize];
            let crypto''', '''        for block_data in self.group_cache.chunks_exact_mut(BLOCK_SIZE as usize) {
            let crypto'''))
ok('r-split', '', (NR, '''            let crypto = Aes128CbcDec::new(
                self.encryption_key.as_ref().into(),
                block_data[0x3d0..][..0x10].as_ref().into(),
            );
            crypto
                .decrypt_padded_mut::<NoPadding>(&mut block_data[BLOCK_DATA_OFFSET as usize..])''', '''            let (hashes, data) = block_data.split_at_mut(BLOCK_DATA_OFFSET as usize);
            let iv: [u8; 16] = hashes[0x3d0..0x3e0].try_into().unwrap();
            Aes128CbcDec::new(&self.encryption_key.into(), &iv.into())
                .decrypt_padded_mut::<NoPadding>(data)'''))
ok('r-win', '', (W, '''    fn bytes_left(&self) -> Option<usize> {''', '''    /// how many of `wanted` bytes lie inside the window
    fn limit(&self, wanted: usize) -> usize {
        match self.bytes_left() {
            Some(left) => left.min(wanted),
            None => wanted,
        }
    }

    fn advance(&mut self, result: io::Result<usize>) -> io::Result<usize> {
        if let Ok(amt) = &result {
            self.pos += *amt as u64;
        } else {
            self.needs_seek = true;
        }
        result
    }

    fn bytes_left(&self) -> Option<usize> {'''), (W, '''    fn read(&mut self, mut buf: &mut [u8]) -> io::Result<usize> {
        self.ensure_seeked()?;
        if let Some(bytes_left) = self.bytes_left() {
            let new_len = bytes_left.min(buf.len());
            buf = &mut buf[..new_len];
        }
        match self.source.read(buf) {
            Ok(amt) => {
                self.pos += amt as u64;
                Ok(amt)
            }
            e => {
                self.needs_seek = true;
                e
            }
        }
    }''', '''    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.ensure_seeked()?;
        let len = self.limit(buf.len());
        let result = self.source.read(&mut buf[..len]);
        self.advance(result)
    }'''), (W, '''    fn write(&mut self, mut buf: &[u8]) -> io::Result<usize> {
        self.ensure_seeked()?;
        if let Some(bytes_left) = self.bytes_left() {
            let new_len = bytes_left.min(buf.len());
            buf = &buf[..new_len];
        }
        match self.source.write(buf) {
            Ok(amt) => {
                self.pos += amt as u64;
                Ok(amt)
            }
            e => {
                self.needs_seek = true;
                e
            }
        }
    }''', '''    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.ensure_seeked()?;
        let len = self.limit(buf.len());
        let result = self.source.write(&buf[..len]);
        self.advance(result)
    }'''))
ok('r-winseek', '', (W, '''        let position = self.source.seek(match pos {
            SeekFrom::Current(off) => {
                SeekFrom::Start((self.start + self.pos).saturating_add_signed(off))
            }
            SeekFrom::End(off) => {
                if let Some(length) = self.length {
                    SeekFrom::Start((self.start + length).saturating_add_signed(off))
                } else {
                    return Err(io::ErrorKind::Unsupported.into());
                }
            }
            SeekFrom::Start(off) => SeekFrom::Start(self.start + off),
        })?;''', '''        let target = match (pos, self.length) {
            (SeekFrom::Start(off), _) => self.start + off,
            (SeekFrom::Current(off), _) => (self.start + self.pos).saturating_add_signed(off),
            (SeekFrom::End(off), Some(length)) => (self.start + length).saturating_add_signed(off),
            (SeekFrom::End(_), None) => return Err(io::ErrorKind::Unsupported.into()),
        };
        let position = self.source.seek(SeekFrom::Start(target))?;'''))
ok('r-hash', '', (RW, '''            for j in 0..31 {
                hasher.update(&ptr0[(j + 1) * 0x400..][..0x400]);
                h0[j * 20..][..20].copy_from_slice(&hasher.finalize_reset());
            }
            hasher.update(&h0);
            h1[c * 20..][..20].copy_from_slice(&hasher.finalize_reset());
            ptr0[..h0.len()].copy_from_slice(&h0);''', '''            for j in 0..31 {
                let start = (j + 1) * 0x400;
                h0[j * 20..j * 20 + 20].copy_from_slice(&Sha1::digest(&ptr0[start..start + 0x400]));
            }
            h1[c * 20..c * 20 + 20].copy_from_slice(&Sha1::digest(&h0));
            ptr0[..h0.len()].copy_from_slice(&h0);'''))
ok('r-hash2', '', (RW, '''            Aes128CbcEnc::new(encryption_key.into(), [0; 16].as_ref().into())
                .encrypt_padded_mut::<NoPadding>(&mut ptr0[..0x400], 0x400)
                // TODO: can bad data cause a panic here?
                .unwrap();

            Aes128CbcEnc::new(encryption_key.into(), ptr0[0x3D0..][..16].into())
                .encrypt_padded_mut::<NoPadding>(&mut ptr0[0x400..0x8000], 0x8000 - 0x400)
                // TODO: can bad data cause a panic here?
                .unwrap();''', '''            encrypt_block(&mut ptr0[..BLOCK_SIZE as usize], encryption_key);'''), (RW, 'fn hash_encrypt_block(', '''fn encrypt_block(block: &mut [u8], key: &[u8; 16]) {
    let (hashes, data) = block.split_at_mut(BLOCK_DATA_OFFSET as usize);
    Aes128CbcEnc::new(key.into(), [0; 16].as_ref().into())
        .encrypt_padded_mut::<NoPadding>(hashes, BLOCK_DATA_OFFSET as usize)
        .unwrap();
    Aes128CbcEnc::new(key.into(), hashes[0x3D0..0x3E0].into())
        .encrypt_padded_mut::<NoPadding>(data, BLOCK_DATA_SIZE as usize)
        .unwrap();
}

fn hash_encrypt_block('''))
ok('r-item', '', (B, '''        // write dol
        part_disc_header.dol_off = align_next(crypto_writer.stream_position()?, 0x20).into();
        crypto_writer.seek(SeekFrom::Start(*part_disc_header.dol_off))?;
        crypto_writer.write_all(&partition_def.get_dol()?)?;
''', '''        // write dol
        let dol_off = align_to(&mut crypto_writer, 0x20)?;
        part_disc_header.dol_off = dol_off.into();
        crypto_writer.write_all(&partition_def.get_dol()?)?;
'''), (B, '''        part_disc_header.fst_off = align_next(crypto_writer.stream_position()?, 0x20).into();
        crypto_writer.seek(SeekFrom::Start(*part_disc_header.fst_off))?;
''', '''        part_disc_header.fst_off = align_to(&mut crypto_writer, 0x20)?.into();
'''), (B, '''        let data_start = align_next(crypto_writer.stream_position()?, 0x40);
        crypto_writer.seek(SeekFrom::Start(data_start))?;
''', '''        align_to(&mut crypto_writer, 0x40)?;
'''), (B, '#[derive(thiserror::Error, Debug)]', '''fn align_to<S: Seek>(stream: &mut S, alignment: u64) -> io::Result<u64> {
    let position = stream.stream_position()?;
    stream.seek(SeekFrom::Start(align_next(position, alignment)))
}

#[derive(thiserror::Error, Debug)]'''))
ok('r-fakesign', '', (B, '''        hasher.reset();
        // brute force 0 starting hash
        for i in 0..u64::MAX {
            tmd_buf[0x19A..][..8].copy_from_slice(&i.to_ne_bytes());
            hasher.update(&tmd_buf[0x140..]);
            let hash = hasher.finalize_reset();
            if hash[0] == 0 {
                break;
            }
        }
''', '''        fake_sign(&mut tmd_buf);
'''), (B, '#[derive(thiserror::Error, Debug)]', '''// brute force 0 starting hash
fn fake_sign(tmd_buf: &mut [u8]) {
    for i in 0..u64::MAX {
        tmd_buf[0x19A..][..8].copy_from_slice(&i.to_ne_bytes());
        if Sha1::digest(&tmd_buf[0x140..])[0] == 0 {
            return;
        }
    }
}

#[derive(thiserror::Error, Debug)]'''))
ok('r-filedata', '', (B, '''            while remaining_data.len() > 0 {
                let bytes_to_write = remaining_data.len().min(0x1_000_000);
                let batch;
                (batch, remaining_data) = remaining_data.split_at(bytes_to_write);
                crypto_writer.write_all(batch)?;
                if uses_file_byte_progress {
                    processed_file_bytes += bytes_to_write;''', '''            for batch in remaining_data.chunks(0x1_000_000) {
                crypto_writer.write_all(batch)?;
                if uses_file_byte_progress {
                    processed_file_bytes += batch.len();'''), (B, 'let mut remaining_data = data.as_ref();', 'let remaining_data = data.as_ref();'))
ok('r-readfile', '', (B, '''        let path = self.base_dir.join("sys/bi2.bin");
        let mut f = try_open(path)?;
        self.buf.clear();
        f.read_to_end(&mut self.buf)?;
        Ok(Cow::Borrowed(&self.buf))''', '''        self.load("sys/bi2.bin")'''), (B, '''        self.buf.clear();
        let path = self.base_dir.join("sys/apploader.img");
        let mut f = try_open(path)?;
        f.read_to_end(&mut self.buf)?;
        Ok(Cow::Borrowed(&self.buf))''', '''        self.load("sys/apploader.img")'''), (B, '''        self.buf.clear();
        let path = self.base_dir.join("sys/main.dol");
        let mut f = try_open(path)?;
        f.read_to_end(&mut self.buf)?;
        Ok(Cow::Borrowed(&self.buf))''', '''        self.load("sys/main.dol")'''), (B, '''type DirPartAddErr = PartitionAddError<BuildDirError>;
''', '''type DirPartAddErr = PartitionAddError<BuildDirError>;

impl DirPartitionBuilder {
    fn load<'a>(&'a mut self, name: &str) -> Result<Cow<'a, [u8]>, DirPartAddErr> {
        self.buf.clear();
        try_open(self.base_dir.join(name))?.read_to_end(&mut self.buf)?;
        Ok(Cow::Borrowed(self.buf.as_slice()))
    }
}

'''))
ok('r-record', '', (B, '''    let ticket = {
        let path = partition_path.join("ticket.bin");
        let mut f = try_open(path)?;
        f.read_be::<Ticket>()?
    };
    let tmd = {
        let path = partition_path.join("tmd.bin");
        let mut f = try_open(path)?;
        f.read_be::<TMD>()?
    };
    let cert_chain = {
        let path = partition_path.join("cert.bin");
        let mut f = try_open(path)?;
        f.read_be::<[Certificate; 3]>()?
    };''', '''    let ticket: Ticket = try_open(partition_path.join("ticket.bin"))?.read_be()?;
    let tmd: TMD = try_open(partition_path.join("tmd.bin"))?.read_be()?;
    let cert_chain: [Certificate; 3] = try_open(partition_path.join("cert.bin"))?.read_be()?;'''))
ok('r-pyfile', '', (PY, '''                        loop {
                            let bytes_to_read = bytes_left.min(buffer.len());
                            let bytes_read =
                                wii_encrypt_reader.read(&mut buffer[..bytes_to_read])?;
                            if bytes_read == 0 {
                                break;
                            }

                            outfile.write_all(&buffer[..bytes_read])?;
                            done_bytes += bytes_read;
                            bytes_left -= bytes_read;

                            let done_percent =
                                ((done_bytes as f64) / (total_bytes as f64) * 100f64) as u32;
                            Python::attach(|py| {
                                let _ = callback.call1(py, (done_percent,));
                            });
                        }
                        if bytes_left != 0 {
                            return Err(std::io::ErrorKind::UnexpectedEof.into());
                        }''', '''                        while bytes_left > 0 {
                            let chunk_len = bytes_left.min(buffer.len());
                            let chunk = &mut buffer[..chunk_len];
                            wii_encrypt_reader.read_exact(chunk)?;
                            outfile.write_all(chunk)?;
                            done_bytes += chunk_len;
                            bytes_left -= chunk_len;
                            report_progress(&callback, done_bytes, total_bytes);
                        }'''), (PY, '''#[pyfunction]
pub fn rebuild''', '''fn report_progress(callback: &Py<PyAny>, done: usize, total: usize) {
    let done_percent = ((done as f64) / (total as f64) * 100f64) as u32;
    Python::attach(|py| {
        let _ = callback.call1(py, (done_percent,));
    });
}

#[pyfunction]
pub fn rebuild'''))
ok('r-cli', '', (CLI, '''            let f = File::open(filename)?;
            let mut reader = WiiIsoReader::open(f)?;
            let part_type = match section.to_ascii_uppercase().as_str() {
                "DATA" => WiiPartType::Data,
                "CHANNEL" => WiiPartType::Channel,
                "UPDATE" => WiiPartType::Update,
                _ => return Err(MyError::InvalidSection(section)),
            };
            let partition = reader
                .partitions()
                .iter()
                .find(|p| p.get_type() == part_type)
                .cloned()
                .ok_or_else(|| MyError::SectionNotFound(part_type))?;

            let mut part_reader = reader.open_partition(partition)?;
            part_reader''', '''            let (mut reader, mut part_reader) = open_section(&filename, section)?;
            part_reader'''), (CLI, '''fn main() ->''', '''fn open_section(
    filename: &std::path::Path,
    section: String,
) -> Result<(WiiIsoReader<File>, disc_riider::WiiPartitionReadInfo), MyError> {
    let mut reader = WiiIsoReader::open(File::open(filename)?)?;
    let part_type = match section.to_ascii_uppercase().as_str() {
        "DATA" => WiiPartType::Data,
        "CHANNEL" => WiiPartType::Channel,
        "UPDATE" => WiiPartType::Update,
        _ => return Err(MyError::InvalidSection(section)),
    };
    let partition = reader
        .partitions()
        .iter()
        .find(|p| p.get_type() == part_type)
        .cloned()
        .ok_or(MyError::SectionNotFound(part_type))?;
    let part_reader = reader.open_partition(partition)?;
    Ok((reader, part_reader))
}

fn main() ->'''))
ok('r-parts', '', (ST, '''        if part_count > 0 {
            let pos = r.stream_position()?;
            r.seek(SeekFrom::Start(offset))?;
            for _ in 0..part_count {
                parts.push(r.read_be::<WiiPartTableEntry>()?);
            }
            r.seek(SeekFrom::Start(pos))?;
        }''', '''        if part_count == 0 {
            continue;
        }
        let pos = r.stream_position()?;
        r.seek(SeekFrom::Start(offset))?;
        for _ in 0..part_count {
            let entry: WiiPartTableEntry = r.read_be()?;
            parts.push(entry);
        }
        r.seek(SeekFrom::Start(pos))?;'''))
ok('r-sysfiles', '', (NR, '''        let boot_path = sys_folder.join("boot.bin");
        let mut f = File::create(boot_path)?;
        f.write_be(&self.encrypted_header)?;
        f.flush()?;
        drop(f);
        write_file(&sys_folder, "bi2.bin", &self.read_bi2(reader)?)?;
        write_file(&sys_folder, "apploader.img", &self.read_apploader(reader)?)?;
        write_file(&sys_folder, "main.dol", &self.read_dol(reader)?)?;
''', '''        let mut boot = std::io::Cursor::new(Vec::new());
        boot.write_be(&self.encrypted_header)?;
        write_file(&sys_folder, "boot.bin", boot.get_ref())?;
        let bi2 = self.read_bi2(reader)?;
        write_file(&sys_folder, "bi2.bin", &bi2)?;
        let apploader = self.read_apploader(reader)?;
        write_file(&sys_folder, "apploader.img", &apploader)?;
        let dol = self.read_dol(reader)?;
        write_file(&sys_folder, "main.dol", &dol)?;
'''))
ok('r-pysec', '', (PY, '''        section.make_ascii_uppercase();
        let partition = self
            .sections_to_extract
            .iter_mut()
            .find(|part| part.part == section)
            .ok_or_else(|| {
                exceptions::PyException::new_err(format!("section {section} doesn't exist!"))
            })?;
        let dol''', '''        section.make_ascii_uppercase();
        let Some(partition) = self
            .sections_to_extract
            .iter_mut()
            .find(|part| part.part == section)
        else {
            return Err(exceptions::PyException::new_err(format!(
                "section {section} doesn't exist!"
            )));
        };
        let dol'''))
ok('r-flush', '', (RW, '''            OpenMode::ReadWrite { .. } => {
                if let Some(current_group) = self.inner.current_group {
                    if self.inner.is_dirty {''', '''            OpenMode::ReadWrite { .. } => {
                let pending = if self.inner.is_dirty {
                    self.inner.current_group
                } else {
                    None
                };
                {
                    if let Some(current_group) = pending {'''))
# third batch
bug('v-02-loop', 'C02', (PY, 'if bytes_read == 0 {\n                                break;', 'if bytes_read < bytes_to_read && bytes_read == 0 || bytes_left == 0 {\n                                bytes_left = 0;\n                                break;'))
bug('v-02-count', 'C02', (PY, 'bytes_left -= bytes_read;', 'bytes_left -= bytes_to_read;'))
bug('v-02-vec', 'C02 C05', (NR, '''                return Err(io::ErrorKind::UnexpectedEof.into());
            }
            // we either copy the entire block or what's needed to fill the vec''', '''                buffer.resize(length as usize, 0);
                break;
            }
            // we either copy the entire block or what's needed to fill the vec'''))
bug('v-01-take', 'C01', (B, '''        let header = try_open(path)?.read_be::<DiscHeader>()?;
        Ok(header)''', '''        let header = match try_open(path) {
            Ok(mut f) => f.read_be::<DiscHeader>()?,
            Err(_) => return Err(PartitionAddError::Custom(BuildDirError::NotFound(PathBuf::from("boot.bin")))),
        };
        Ok(header)''')) if False else None
bug('v-01-ready', 'C01', (NR, '''        f.write_be(&self.encrypted_header)?;
        f.flush()?;''', '''        f.write_be(&self.encrypted_header).ok();
        f.flush()?;'''))
bug('v-01-entry', 'C01 C22', (D if 'D' in globals() else 'src/dir_reader.rs', '''    for entry in fs::read_dir(path)? {
        let entry = entry?;''', '''    for entry in fs::read_dir(path)?.flatten() {'''))
bug('v-01-file', 'C01', (B, '''fn try_open(path: PathBuf) -> Result<File, DirPartAddErr> {
    if !path.is_file() {''', '''fn try_open(path: PathBuf) -> Result<File, DirPartAddErr> {
    if path.file_name().map_or(false, |n| n == "bi2.bin") && !path.exists() {
        return File::open("/dev/null").map_err(Into::into);
    }
    if !path.is_file() {''')) if False else None
bug('v-11-parent', 'C11', (F, 'let parent_idx = idx.wrapping_sub(1);', 'let parent_idx = raw_nodes.iter().rposition(|n| n.is_directory).unwrap_or(0) as u32;'))
bug('v-11-dirlen', 'C11', (F, '                        node.length = *idx;', '                        node.length = *idx + files.is_empty() as u32;'))
bug('v-11-order', 'C11', (F, '''        str_bytes.extend_from_slice(bytes.as_ref());
        str_bytes.push(0);
        name_offsets.push(name_offset as u32);
        match node {
            FstNode::Directory { files, .. } => {
                rec_build_fst_bytes(files, name_offsets, str_bytes)?;
            }''', '''        str_bytes.extend_from_slice(bytes.as_ref());
        str_bytes.push(0);
        match node {
            FstNode::Directory { files, .. } => {
                rec_build_fst_bytes(files, name_offsets, str_bytes)?;
                name_offsets.push(name_offset as u32);
            }'''), (F, '''            &FstNode::File { .. } => {}
        }
    }
    Ok(())
}

impl TryFrom''', '''            &FstNode::File { .. } => name_offsets.push(name_offset as u32),
        }
    }
    Ok(())
}

impl TryFrom'''))
bug('v-11-dedup', 'C11', (F, '''        let name_offset = str_bytes.len() as u32;
        str_bytes.extend_from_slice(bytes.as_ref());
        str_bytes.push(0);''', '''        let name_offset = match str_bytes.windows(bytes.len().max(1)).position(|w| w == bytes.as_ref()) {
            Some(pos) if !bytes.is_empty() => pos as u32,
            _ => {
                let pos = str_bytes.len() as u32;
                str_bytes.extend_from_slice(bytes.as_ref());
                str_bytes.push(0);
                pos
            }
        };'''))
bug('v-11-lenoff', 'C11', (F, 'offset: (node.offset as u64) << 2,', 'offset: (node.offset << 2) as u64,'))
bug('v-11-err', 'C11', (F, '        if error {\n            return Err(FstToBytesError', '        if error && node.is_file() {\n            return Err(FstToBytesError'))
bug('v-12-skipempty', 'C12', (F, '''                } => f(path, offset, length)?,''', '''                } => {
                    if *length != 0 {
                        f(path, offset, length)?
                    }
                }'''))
bug('v-12-poperr', 'C12', (F, '''                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec_mut(f, files, path)?;
                }''', '''                FstNode::Directory { files, .. } => {
                    let _ = Self::callback_all_files_rec_mut(f, files, path);
                }'''))
bug('v-12-late', 'C12', (F, '''            vec.push(node.get_name());
            f(vec, node)?;
            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec(f, files, vec)?;
                }
                FstNode::File { .. } => {}
            }
''', '''            vec.push(node.get_name());
            match node {
                FstNode::Directory { files, .. } => {
                    Self::callback_all_files_rec(f, files, vec)?;
                }
                FstNode::File { .. } => {}
            }
            f(vec, node)?;
'''))
bug('v-13-dirfile', 'C13', (F, '''        dir_node_files = match node {
            FstNode::Directory { files, .. } => files,
            // can't insert when the node is a file
            FstNode::File { .. } => return Err(()),
        };''', '''        if node.is_file() {
            *node = FstNode::create_dir(cur_part.to_string());
        }
        dir_node_files = match node {
            FstNode::Directory { files, .. } => files,
            // can't insert when the node is a file
            FstNode::File { .. } => return Err(()),
        };'''))
bug('v-13-push', 'C13', (F, '''            // new file, vec is still sorted
            dir_node_files.insert(pos, new_node);''', '''            // new file, vec is still sorted
            dir_node_files.insert(pos.min(dir_node_files.len().saturating_sub(1)), new_node);'''))
bug('v-13-find', 'C13', (F, '''                cur_node = files.iter().find(|n| n.get_name() == cur_part)?;''', '''                cur_node = files
                    .binary_search_by(|probe| ordering_ignore_case(probe.get_name(), cur_part))
                    .ok()
                    .map(|pos| &files[pos])?;'''))
bug('v-13-filter', 'C13', (F, "self.remove_node_iter(s.split('/').filter(|p| !p.is_empty()))", "self.remove_node_iter(s.split('/').filter(|p| !p.is_empty() && *p != \".\"))"))
bug('v-13-return', 'C13', (F, '''            std::mem::swap(&mut new_node, &mut dir_node_files[pos]);
            Ok(Some(new_node))''', '''            dir_node_files[pos] = new_node;
            Ok(None)'''))
bug('v-14-off4', 'C14', (B, '*offset = crypto_writer.stream_position()?;', '*offset = align_next(crypto_writer.stream_position()?, 0x40) & 0xFFFF_FFFF;'))
bug('v-14-late', 'C14', (B, '''        // data is written, write the fst properly now
        crypto_writer.seek(SeekFrom::Start(*part_disc_header.fst_off))?;
        fst.write_to(&mut crypto_writer)?;
''', '''        // data is written, write the fst properly now
        if total_files > 1 {
            crypto_writer.seek(SeekFrom::Start(*part_disc_header.fst_off))?;
            fst.write_to(&mut crypto_writer)?;
        }
'''))
bug('v-14-hdr', 'C14', (B, '''        let data_start = align_next(crypto_writer.stream_position()?, 0x40);''', '''        part_disc_header.fst_off = align_next(*part_disc_header.fst_off, 0x40).into();
        let data_start = align_next(crypto_writer.stream_position()?, 0x40);'''))
bug('v-14-paddata', 'C14', (B, 'let next_start = align_next(current_position + padding as u64, 0x40);', 'let next_start = align_next(current_position.saturating_sub(padding as u64), 0x40);'))
bug('v-15-fail', 'C15', (B, '''        self.current_data_offset += 0x20000 /* encrypted data off */ + total_encrypted_size;
''', '''        self.current_data_offset = part_data_off + 0x20000 /* encrypted data off */ + total_encrypted_size - GROUP_SIZE * (groups % 2);
'''))
bug('v-15-create', 'C15', (B, 'current_data_offset: 0x50000,', 'current_data_offset: 0x40000 + 0x10,'))
bug('v-16-order', 'C16', (B, '''        tmd_buf[0x1EC..][..8].copy_from_slice(&total_size.to_be_bytes());
''', ''), (B, '''        partition_window.seek(SeekFrom::Start(*part_header.tmd_off))?;
        partition_window.write_all(&tmd_buf)?;''', '''        tmd_buf[0x1EC..][..8].copy_from_slice(&total_size.to_be_bytes());
        partition_window.seek(SeekFrom::Start(*part_header.tmd_off))?;
        partition_window.write_all(&tmd_buf)?;'''))
bug('v-16-from', 'C16', (B, 'hasher.update(&tmd_buf[0x140..]);', 'hasher.update(&tmd_buf[0x100..]);'))
bug('v-16-le', 'C16', (B, '.copy_from_slice(&total_size.to_be_bytes());', '.copy_from_slice(&(total_size as u32 as u64).to_be_bytes());'))
bug('v-18-once', 'C18', (PY, '''            fs::write(section_path_disk.join("region.bin"), region)?;''', '''            if !section_path_disk.join("region.bin").exists() {
                fs::write(section_path_disk.join("region.bin"), region)?;
            }'''))
bug('v-18-cert', 'C18', (PY, 'binrw_write_file(&section_path.join("cert.bin"), &certs)?;', 'binrw_write_file(&section_path.join("cert.bin"), &certs[0])?;'))
bug('v-18-le', 'C18', (PY, 'f.write_be(value).into_pyerr_with_path(p)?;', 'f.write_ne(value).into_pyerr_with_path(p)?;'))
bug('v-20-vec', 'C20', (B, '''        self.buf.clear();
        let mut f = try_open(fs_path)?;
        f.read_to_end(&mut self.buf)?;''', '''        let mut f = try_open(fs_path)?;
        let len = f.metadata()?.len() as usize;
        if len > self.buf.len() {
            self.buf.resize(len, 0);
        }
        f.read_exact(&mut self.buf[..len])?;'''))
bug('v-20-swap', 'C20', (B, '''        let path = self.base_dir.join("sys/bi2.bin");
        let mut f = try_open(path)?;
        self.buf.clear();
        f.read_to_end''', '''        let path = self.base_dir.join("sys/bi2.bin");
        let mut f = try_open(path)?;
        self.buf.truncate(0x2000);
        f.read_to_end'''))
bug('v-21-parts', 'C21', (B, '''        self.file.write_all(&[0; 3 * 8])?;''', '''        self.file.write_all(&[0; 2 * 8])?;'''))
bug('v-21-py', 'C21', (PY, '''        .truncate(true)
        .read(true)
        .write(true)
        .create(true)
        .open(&dest_path)?;''', '''        .read(true)
        .write(true)
        .create(true)
        .open(&dest_path)?;'''))
bug('v-23-early', 'C23', (PY, '''                    FstNode::File { name, .. } => {
                        dirstack.push(name.clone());''', '''                    FstNode::File { length: 0, .. } => true,
                    FstNode::File { name, .. } => {
                        dirstack.push(name.clone());'''))
bug('v-23-twice', 'C23', (PY, '!should_remove', 'should_remove == false && !files_removed')) if False else None
bug('v-10-exact', 'C10', (W, '''        self.ensure_seeked()?;
        match self.source.read_exact(buf) {''', '''        if !buf.is_empty() {
            self.source.seek(SeekFrom::Current(0))?;
        }
        match self.source.read_exact(buf) {'''))
bug('v-10-flag', 'C10', (W, 'needs_seek: true,', 'needs_seek: start != 0,'))
bug('v-10-new', 'C10', (W, '            pos: 0,\n', '            pos: length.map_or(0, |_| 0).max(start % 1),\n')) if False else None
