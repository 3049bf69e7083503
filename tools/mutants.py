"""Changes the checks are developed against (see mutate.py). edits: (file under src, old, new)."""
MUTANTS = []
def m(name, props, *edits):
    MUTANTS.append({"name": name, "props": props if isinstance(props, list) else props.split(), "edits": edits})
PK = "core/transport/wire/packet.rs"
EN = "core/transport/wire/output/encoder.rs"
IN = "core/transport/wire/input/mod.rs"
DE = "core/transport/wire/input/decoder.rs"
OU = "core/transport/wire/output/mod.rs"
m("c02-dataonly-both", "C02", (PK, "Ok([self.metadata.to_vec()?, self.data.to_vec()].concat())", "Ok(self.data.to_vec())"),
  (EN, "&[md, data.to_vec()].concat()", "&{ let _ = md; data.to_vec() }"))
m("c02-skip-field", "C02", (PK, "    /// Position within a collection of packets, starting at base 0\n", "    #[serde(skip)]\n"))
m("c02-order", "C02", (PK, "Ok([self.metadata.to_vec()?, self.data.to_vec()].concat())", "Ok([self.data.to_vec(), self.metadata.to_vec()?].concat())"))
m("c02-truncated", "C02", (PK, "self.data.to_vec()].concat()", "self.data.iter().take(64).copied().collect()].concat()"),
  (EN, "&[md, data.to_vec()].concat()", "&[md, data.iter().take(64).copied().collect()].concat()"))
m("c02-idonly", "C02", (PK, "    pub fn to_vec(&self) -> Result<Vec<u8>, serde_cbor::Error> {\n        serde_cbor::ser::to_vec_packed(&self)\n    }\n}\n\n#[derive(Serialize, Deserialize, Debug, Clone)]", "    pub fn to_vec(&self) -> Result<Vec<u8>, serde_cbor::Error> {\n        serde_cbor::ser::to_vec_packed(&(self.id, self.r#type))\n    }\n}\n\n#[derive(Serialize, Deserialize, Debug, Clone)]"))
m("keep-c02-push", ["C01", "C02", "C03", "C04"], (PK, "Ok([self.metadata.to_vec()?, self.data.to_vec()].concat())", "let mut content = self.metadata.to_vec()?;\n        content.extend_from_slice(&self.data);\n        Ok(content)"))
m("keep-c02-helper", ["C02", "C04"], (EN, "metadata.to_vec().map(|md| {\n            let sig = signer.sign(&[md, data.to_vec()].concat());\n            Packet::new(metadata, sig, data.to_vec())\n        })",
  "let md = metadata.to_vec()?;\n        let sig = Self::sign_content(signer, md, data);\n        Ok(Packet::new(metadata, sig, data.to_vec()))"),
  (EN, "    /// Finds the optimal data size to get", "    fn sign_content<S: Signer>(signer: &S, md: Vec<u8>, data: &[u8]) -> crate::core::transport::auth::Digest {\n        let mut content = Vec::with_capacity(md.len() + data.len());\n        content.extend(md);\n        content.extend(data.iter());\n        signer.sign(&content)\n    }\n\n    /// Finds the optimal data size to get"))
m("c03-bypass-none", "C03", (IN, "            self.decoder.remove_group(group_id);\n\n            Ok(Some(result?))", "            let raw = self.decoder.decode(group_id).map_err(InputProcessorError::DecodeData);\n            self.decoder.remove_group(group_id);\n            if nonce.is_none() { return raw.map(Some); }\n\n            Ok(Some(result?))"))
m("c03-fallback", "C03", (OU, ".encrypt(data, &associated_data)\n            .map_err(OutputProcessorError::EncryptData)?;", ".encrypt(data, &associated_data)\n            .unwrap_or_else(|_| data.to_vec());"))
m("c03-decfail", "C03", (IN, "    let data = decrypter\n        .decrypt(&data, &AssociatedData::from(nonce))\n        .map_err(InputProcessorError::DecryptData)?;", "    let data = decrypter\n        .decrypt(&data, &AssociatedData::from(nonce))\n        .unwrap_or(data);"))
m("c03-halfdata", "C03", (OU, ".encrypt(data, &associated_data)", ".encrypt(&data[..data.len() / 2], &associated_data)"))
m("keep-c03-map", ["C03", "C04", "C07"], (OU, "        let mut output = Vec::new();\n        for packet in packets.iter() {\n            let packet_data = packet\n                .to_vec()\n                .map_err(OutputProcessorError::DecodePacket)?;\n            output.push(packet_data);\n        }\n\n        Ok(output)", "        packets\n            .iter()\n            .map(|p| p.to_vec().map_err(OutputProcessorError::DecodePacket))\n            .collect()"))
m("keep-c03-helper", ["C01", "C03", "C04", "C06", "C08"], (IN, "        let do_decode = add_packet_and_verify(&mut self.decoder, p)?;\n        if do_decode {", "        if !add_packet_and_verify(&mut self.decoder, p)? {\n            return Ok(None);\n        }\n        {"), (IN, "            Ok(Some(result?))\n        } else {\n            Ok(None)\n        }", "            let plain = result?;\n            Ok(Some(plain))\n        }"))
A1 = "core/transport/crypto/aes/aes_gcm_128.rs"
NO = "core/transport/crypto/nonce/mod.rs"
m("c04-lastpacket", "C04", (IN, "        let group_id = p.id();\n", "        let group_id = p.id();\n        let last_nonce = p.nonce().cloned();\n"), (IN, "let nonce = self.decoder.nonce(group_id).cloned();", "let nonce = last_nonce;"))
m("c04-constnonce", "C04", (NO, "rand::thread_rng().gen::<Nonce96Bits>()", "{ let mut n = rand::thread_rng().gen::<Nonce96Bits>(); n[0] = 0; n }"))
m("c04-nonce-partial", "C04", (NO, "rand::thread_rng().gen::<Nonce128Bits>()", "{ let mut n = [0u8; 16]; n[..8].copy_from_slice(&rand::thread_rng().gen::<[u8; 8]>()); n }"))
m("c04-noguard", "C04", (A1, "        nonce::validate_nonce_size(self.nonce_size, nonce.len())?;\n        self.inner\n            .decrypt", "        self.inner\n            .decrypt"))
m("c04-wrongsize", "C04", (A1, "nonce_size: NonceSize::Nonce96Bits", "nonce_size: NonceSize::Nonce128Bits"))
m("c04-two-ad", "C04", (OU, "PacketEncryption::from(associated_data.clone())", "PacketEncryption::from(self.encrypter.new_encrypt_associated_data())"))
m("c04-lost", "C04", (OU, "PacketEncryption::from(associated_data.clone())", "{ let _ = &associated_data; PacketEncryption::Encrypted }"))
m("c04-validate-le", "C04", (NO, "if desired_size != nonce_size.size_in_bytes() {", "if desired_size < nonce_size.size_in_bytes() {"))
m("c04-final-none", "C04", (EN, "                        PacketType::Final { encryption }\n                    } else {", "                        PacketType::Final { encryption: if packets.is_empty() { encryption } else { PacketEncryption::Encrypted } }\n                    } else {"))
m("keep-c04-validate", "C04", (A1, "        let nonce = associated_data\n            .nonce_slice()\n            .ok_or(CryptError::MissingNonce)?;\n        nonce::validate_nonce_size(self.nonce_size, nonce.len())?;\n        self.inner\n            .decrypt", "        let nonce = match associated_data.nonce_slice() {\n            Some(x) => x,\n            None => return Err(CryptError::MissingNonce),\n        };\n        if nonce.len() != self.nonce_size.size_in_bytes() {\n            return Err(CryptError::NonceWrongSize { provided_size: nonce.len() });\n        }\n        self.inner\n            .decrypt"))
m("keep-c04-fill", "C04", (NO, "rand::thread_rng().gen::<Nonce96Bits>()", "{ let mut n = [0u8; 12]; rand::thread_rng().fill(&mut n); n }"))
m("keep-c04-matchnonce", "C04", (DE, "        let group = self.packet_groups.get(&group_id.into())?;\n        group.packets.get(&group.final_index?)?.nonce()", "        match self.packet_groups.get(&group_id.into()) {\n            Some(group) => group.packets.values().find(|p| p.is_final()).and_then(|p| p.nonce()),\n            None => None,\n        }"))
CA = "core/transport/crypto/nonce/cache.rs"
m("c05-split", "C05", (CA, "            let mut cache = cache.write().unwrap();\n            if cache.contains(&nonce_vec) {", "            if cache.read().unwrap().contains(&nonce_vec) {"), (CA, "            cache.put(nonce_vec, ());", "            cache.write().unwrap().put(nonce_vec, ());"))
m("c05-encskip", "C05", (CA, "        if let Some(nonce) = associated_data.nonce_slice() {\n            self.register_nonce(nonce)?;\n        }\n        self.bicrypter.encrypt(buffer, associated_data)", "        self.bicrypter.encrypt(buffer, associated_data)"))
m("c05-after", "C05", (CA, "        if let Some(nonce) = associated_data.nonce_slice() {\n            self.register_nonce(nonce)?;\n        }\n        self.bicrypter.decrypt(buffer, associated_data)", "        let out = self.bicrypter.decrypt(buffer, associated_data)?;\n        if let Some(nonce) = associated_data.nonce_slice() {\n            self.register_nonce(nonce)?;\n        }\n        Ok(out)"))
m("c05-prefix", "C05", (CA, "let nonce_vec = nonce.to_vec();", "let nonce_vec = nonce[..8].to_vec();"))
m("c05-clone", "C05", (CA, "#[derive(Clone)]\npub struct", "pub struct"), (CA, "impl<T: Bicrypter> Bicrypter for", "impl<T: Bicrypter + Clone> Clone for NonceCacheBicrypter<T> {\n    fn clone(&self) -> Self {\n        let size = self.cache.as_ref().map(|c| c.read().unwrap().cap()).unwrap_or(0);\n        Self::new(self.bicrypter.clone(), size)\n    }\n}\n\nimpl<T: Bicrypter> Bicrypter for"))
m("c05-cap", "C05", (CA, "LruCache::new(nonce_cache_size)", "LruCache::new(std::cmp::min(nonce_cache_size, 1024))"))
m("c05-ignored", "C05", (CA, "            self.register_nonce(nonce)?;\n        }\n        self.bicrypter.decrypt", "            let _ = self.register_nonce(nonce);\n        }\n        self.bicrypter.decrypt"))
m("keep-c05-put", "C05", (CA, "            if cache.contains(&nonce_vec) {\n                return Err(CryptError::NonceAlreadyUsed { nonce: nonce_vec });\n            }\n\n            // Mark that we have used the nonce\n            cache.put(nonce_vec, ());", "            if cache.put(nonce_vec.clone(), ()).is_some() {\n                return Err(CryptError::NonceAlreadyUsed { nonce: nonce_vec });\n            }"))
m("keep-c05-match", "C05", (CA, "        if let Some(cache) = &self.cache {\n            let nonce_vec", "        let cache = match &self.cache {\n            None => return Ok(nonce),\n            Some(x) => x,\n        };\n        {\n            let nonce_vec"))
m("keep-c05-size", "C05", (CA, "if nonce_cache_size > 0 {\n            Some(Arc::new(RwLock::new(LruCache::new(nonce_cache_size))))\n        } else {\n            None\n        };", "match nonce_cache_size {\n            0 => None,\n            n => Some(Arc::new(RwLock::new(LruCache::new(n)))),\n        };"))
m("c06-noexists", "C06", (DE, "if group.packets.contains_key(&index) {\n            return Err(DecoderError::PacketExists { id, index });\n        }", ""))
m("c06-beyond-off", "C06", (DE, "map(|i| index > i)", "map(|i| index > i + 1)"))
m("c06-nosecondfinal", "C06", (DE, "            if is_final {\n                return Err(DecoderError::FinalPacketAlreadyExists", "            if is_final && last_index == 0 {\n                return Err(DecoderError::FinalPacketAlreadyExists"))
m("c06-nobelow", "C06", (DE, "find(|i| **i > index)", "find(|i| **i > index && **i < 10)"))
m("c06-final-always", "C06", (DE, "        if is_final {\n            group.final_index = Some(index);\n        }", "        if is_final || index == 7 {\n            group.final_index = Some(index);\n        }"))
m("c06-incomplete", "C06", (DE, "u64::from(i) + 1 == total_packets", "u64::from(i) <= total_packets"))
m("c06-incomplete2", "C06", (DE, "g.final_index.map(|i| u64::from(i) + 1 == total_packets)", "g.final_index.or(Some(0)).map(|i| u64::from(i) + 1 == total_packets)"))
m("c06-unsorted", "C06", (DE, "packets.sort_unstable_by_key(|p| p.index());", "packets.sort_unstable_by_key(|p| p.data().len());"))
m("c06-nosort", "C06", (DE, "packets.sort_unstable_by_key(|p| p.index());", "packets.dedup_by_key(|p| p.index());"))
m("c06-sort-reverse", "C06", (DE, "packets.sort_unstable_by_key(|p| p.index());", "packets.sort_by(|a, b| b.index().cmp(&a.index()));"))
m("c06-skipfirst", "C06", (DE, "packets.iter().flat_map", "packets.iter().skip_while(|p| p.data().is_empty()).take(1000).flat_map"))
m("c06-drop-on-reject", "C06", (IN, "    decoder\n        .add_packet(packet)\n        .map_err(InputProcessorError::DecodeData)?;", "    if let Err(x) = decoder.add_packet(packet) {\n        decoder.remove_group(id);\n        return Err(InputProcessorError::DecodeData(x));\n    }"))
m("c06-silent", "C06", (DE, "return Err(DecoderError::PacketExists { id, index });", "return Ok(());"))
m("c06-othergroup", "C06", (IN, "Ok(decoder.verify(id))", "Ok(decoder.verify(id & 0xffff))"))
m("c06-replace", "C06", (DE, "        // Check if we already have this packet\n        if group.packets.contains_key(&index) {", "        if group.packets.get(&index).map(|p| p.data().len() > 0).unwrap_or(false) {"))
m("keep-c06-loop", "C06", (DE, "            if let Some(i) = group.packets.keys().find(|i| **i > index) {\n                return Err(DecoderError::PacketBeyondLastIndex {\n                    id,\n                    index: *i,\n                });\n            }", "            for i in group.packets.keys() {\n                if *i > index {\n                    return Err(DecoderError::PacketBeyondLastIndex { id, index: *i });\n                }\n            }"))
m("keep-c06-max", "C06", (DE, "            if let Some(i) = group.packets.keys().find(|i| **i > index) {", "            if let Some(i) = group.packets.keys().max().filter(|i| **i > index) {"))
m("keep-c06-decode-loop", "C06", (DE, "        Ok(packets.iter().flat_map(|p| p.data().clone()).collect())", "        let mut out = Vec::new();\n        for p in packets.iter() {\n            out.extend_from_slice(p.data());\n        }\n        Ok(out)"))
m("keep-c06-decode-range", "C06", (DE, "        let mut packets = group.packets.values().collect::<Vec<&Packet>>();\n        packets.sort_unstable_by_key(|p| p.index());", "        let mut packets: Vec<&Packet> = Vec::new();\n        for i in 0..=group.final_index.unwrap() {\n            packets.push(group.packets.get(&i).unwrap());\n        }"))
m("keep-c06-verify", "C06", (DE, "        self.packet_groups\n            .get(&group_id.into())\n            .and_then(|g| {\n                let total_packets = g.packets.len() as u64;\n                g.final_index.map(|i| u64::from(i) + 1 == total_packets)\n            })\n            .unwrap_or_default()", "        let g = match self.packet_groups.get(&group_id.into()) {\n            Some(g) => g,\n            None => return false,\n        };\n        match g.final_index {\n            Some(i) => g.packets.len() as u64 > u64::from(i),\n            None => false,\n        }"))
m("keep-c06-entry", "C06", (DE, "        // Add the packet to our group and, if it's final, mark it\n        group.packets.insert(index, packet);\n        if is_final {\n            group.final_index = Some(index);\n        }", "        if is_final {\n            group.final_index = Some(index);\n        }\n        let _ = group.packets.insert(index, packet);"))
m("keep-c06-match", "C06", (DE, "        if let Some(last_index) = group.final_index {\n            if is_final {\n                return Err(DecoderError::FinalPacketAlreadyExists {\n                    id,\n                    index: last_index,\n                });\n            }\n        }\n\n        // Check if we are trying to add a packet beyond the final one\n        if group.final_index.map(|i| index > i).unwrap_or(false) {\n            return Err(DecoderError::PacketBeyondLastIndex { id, index });\n        }", "        match group.final_index {\n            Some(last_index) if is_final => {\n                return Err(DecoderError::FinalPacketAlreadyExists {\n                    id,\n                    index: last_index,\n                })\n            }\n            Some(i) if i < index => return Err(DecoderError::PacketBeyondLastIndex { id, index }),\n            _ => (),\n        }"))
m("keep-c06-helper", "C06", (DE, "        if group.packets.contains_key(&index) {", "        if has(group, index) {"), (DE, "impl Decoder {\n", "fn has(g: &PacketGroup, i: u32) -> bool {\n    g.packets.get(&i).is_some()\n}\n\nimpl Decoder {\n"))
m("c07-nosize", "C07", (EN, "if packet_size <= max_packet_size {", "if packet_size <= max_packet_size || i > 0 {"))
m("c07-off", "C07", (EN, "if packet_size <= max_packet_size {", "if packet_size <= max_packet_size + 1 {"))
m("c07-finalflag", "C07", (EN, "if data_size == remaining_data_size {", "if data_size == remaining_data_size || can_fit_all_in_final_packet {"))
m("c07-nofinal", "C07", (EN, "if data_size == remaining_data_size {", "if data_size == remaining_data_size && !packets.is_empty() {"))
m("c07-index", "C07", (EN, "packets.len() as u32,", "packets.len() as u32 + 1,"))
m("c07-index2", "C07", (EN, "packets.len() as u32,", "i as u32,"))
m("c07-overlap", "C07", (EN, "            i += data_size;\n        }\n\n        Ok(packets)", "            i += std::cmp::max(data_size - 1, 1);\n        }\n\n        Ok(packets)"))
m("c07-early", "C07", (EN, "while i < data.len() {", "while i + 1 < data.len() {"))
m("c07-size", "C07", (OU, "max_packet_size: self.transmission_size,", "max_packet_size: self.transmission_size + 16,"))
m("c07-id", "C07", (OU, "rand::random()", "u32::from(rand::random::<u8>())"))
m("keep-c07-helper", "C07", (EN, "                let packet_size = packet\n                    .to_vec()\n                    .map_err(|_| EncoderError::FailedToEstimateDataSize)?\n                    .len();\n                if packet_size <= max_packet_size {", "                let packet_size = Self::size_of(&packet)?;\n                if !(packet_size > max_packet_size) {"), (EN, "    /// Creates a new packet and signs it", "    fn size_of(packet: &Packet) -> Result<usize, EncoderError> {\n        Ok(packet.to_vec().map_err(|_| EncoderError::FailedToEstimateDataSize)?.len())\n    }\n\n    /// Creates a new packet and signs it"))
m("keep-c07-rest", "C07", (EN, "while i < data.len() {", "while data.len() > i {"), (EN, "                let chunk = &data[i..i + data_size];", "                let end = i + data_size;\n                let chunk = &data[i..end];"), (EN, "                    if data_size == remaining_data_size {", "                    if end == data.len() {"))
m("keep-c07-count", "C07", (EN, "        let mut i = 0;\n", "        let mut i = 0;\n        let mut count = 0u32;\n"), (EN, "packets.len() as u32,", "count,"), (EN, "            packets.push(packet);", "            packets.push(packet);\n            count += 1;"))
m("keep-c07-loop", "C07", (EN, "while i < data.len() {", "loop {\n            if i >= data.len() {\n                break;\n            }"))
TT = "utils/ttl.rs"
m("c08-noremove-err", "C08", (IN, "            self.decoder.remove_group(group_id);\n\n            Ok(Some(result?))", "            let result = result?;\n            self.decoder.remove_group(group_id);\n\n            Ok(Some(result))"))
m("c08-noexpire", "C08", (IN, "        self.decoder.remove_expired();\n", ""))
m("c08-expire-after", "C08", (IN, "        self.decoder.remove_expired();\n", ""), (IN, "        if do_decode {", "        self.decoder.remove_expired();\n        if do_decode {"))
m("c08-retain-inv", "C08", (DE, "retain(|k, _| !k.has_expired())", "retain(|k, g| !k.has_expired() || g.final_index.is_some())"))
m("c08-drop-on-error", "C08", (IN, "        let do_decode = add_packet_and_verify(&mut self.decoder, p)?;", "        let do_decode = match add_packet_and_verify(&mut self.decoder, p) {\n            Ok(x) => x,\n            Err(x) => {\n                self.decoder.remove_group(group_id);\n                return Err(x);\n            }\n        };"))
m("c08-key-nonce2", "C08", (EN, "        let r#type = r#type.into_largest_nonce();\n\n        // Calculate key to use for cache\n        let key = format!(\"{}{:?}\", max", "        // Calculate key to use for cache\n        let key = format!(\"{}{:?}\", max"))
m("c08-ttl", "C08", (TT, "self.last_touched.elapsed().checked_sub(self.ttl).is_some()", "self.last_touched.elapsed().checked_sub(self.ttl * 2).is_some()"))
m("c08-ttl2", "C08", (TT, "self.last_touched.elapsed().checked_sub(self.ttl).is_some()", "self.ttl.checked_sub(self.last_touched.elapsed()).is_some()"))
m("keep-c08-ttl", ["C08", "C22"], (TT, "self.last_touched.elapsed().checked_sub(self.ttl).is_some()", "self.last_touched.elapsed() >= self.ttl"))
m("keep-c08-match", "C08", (IN, "        if do_decode {", "        if !do_decode {\n            return Ok(None);\n        }\n        {"), (IN, "            Ok(Some(result?))\n        } else {\n            Ok(None)\n        }", "            match result {\n                Ok(x) => Ok(Some(x)),\n                Err(x) => Err(x),\n            }\n        }"))
m("keep-c08-retain", "C08", (DE, "retain(|k, _| !k.has_expired())", "retain(|k, _| {\n            let gone = k.has_expired();\n            !gone\n        })"))
m("keep-c08-retain2", "C08", (DE, "retain(|k, _| !k.has_expired())", "retain(|k, _| if k.has_expired() { false } else { true })"))
EV = "core/event/mod.rs"
ET = "core/event/tcp.rs"
EU = "core/event/udp.rs"
SV = "core/server/mod.rs"
AC = "core/server/action/mod.rs"
HF = "core/server/action/handler/fs.rs"
HP = "core/server/action/handler/proc.rs"
FM = "core/server/fs/mod.rs"
FF = "core/server/fs/file.rs"
FD = "core/server/fs/dir.rs"
LP = "core/server/proc.rs"
SS = "core/server/state.rs"
CC = "core/client/connected.rs"
CM = "core/client/mod.rs"
CI = "core/client/inbound.rs"
CS = "core/client/state.rs"
m("c09-u32", "C09", (DE, "let total_packets = g.packets.len() as u64;", "let total_packets = g.packets.len() as u32;"), (DE, "u64::from(i) + 1 == total_packets", "i + 1 == total_packets"))
m("c09-getmut-unwrap", "C09", (HP, "    match state.procs.lock().await.get_mut(&args.id) {\n        Some(local_proc) => {\n            local_proc.write_stdin(&args.input).await?;\n            Ok(ProcStdinWrittenArgs { id: args.id })\n        }\n        None => Err(IoErrorArgs::invalid_proc_id(args.id).into()),\n    }",
  "    let mut procs = state.procs.lock().await;\n    if procs.is_empty() {\n        return Err(IoErrorArgs::invalid_proc_id(args.id).into());\n    }\n    procs.get_mut(&args.id).unwrap().write_stdin(&args.input).await?;\n    Ok(ProcStdinWrittenArgs { id: args.id })"))
m("c09-msg", "C09", (EV, "match Msg::from_slice(&data) {", "match Ok::<Msg, String>(Msg::from_slice(&data).expect(\"msg\")) {"))
m("c09-msglen", "C09", (EV, "match Msg::from_slice(&data) {", "match Msg::from_slice(&data[..data.len() - 1]) {"))
m("c09-nonce", "C09", ("core/transport/crypto/aes/aes_gcm_128.rs", "        nonce::validate_nonce_size(self.nonce_size, nonce.len())?;\n        self.inner\n            .decrypt", "        self.inner\n            .decrypt"))
m("c09-first-byte", "C09", (IN, "        // Process the data as a packet\n", "        if data[1] == 0xff {\n            return Ok(None);\n        }\n\n"))
m("c09-last-nonempty", "C09", (DE, "        Ok(packets.iter().flat_map(|p| p.data().clone()).collect())", "        let last = packets.iter().map(|p| p.data().len()).max().unwrap();\n        let mut out = Vec::with_capacity(last);\n        for p in packets {\n            out.push(p.data()[0]);\n            out.extend_from_slice(&p.data()[1..]);\n        }\n        Ok(out)"))
m("c09-custom", "C09", (AC, "                    None => Reply::Ignore,\n                },", "                    None => unreachable!(),\n                },"))
m("c09-seq", "C09", (AC, "                    let mut results: Vec<Reply> = vec![];\n", "                    let mut results: Vec<Reply> = vec![];\n                    let first = args.operations.remove(0);\n                    args.operations.insert(0, first);\n"))
m("c09-respond", "C09", (AC, "        let data = new_msg.to_vec().map_err(ActionError::MsgError)?;", "        let data = new_msg.to_vec().unwrap();"))
m("c09-debug", "C09", (SS, "                let handle = fsm.get(**v).map(|f| f.handle());\n", "                let handle = Some(fsm.get(**v).unwrap().handle());\n"))
m("keep-c09-guard", "C09", (HP, "    match state.procs.lock().await.get_mut(&args.id) {\n        Some(local_proc) => {\n            local_proc.write_stdin(&args.input).await?;\n            Ok(ProcStdinWrittenArgs { id: args.id })\n        }\n        None => Err(IoErrorArgs::invalid_proc_id(args.id).into()),\n    }",
  "    if let Some(local_proc) = state.procs.lock().await.get_mut(&args.id) {\n        local_proc.write_stdin(&args.input).await?;\n        return Ok(ProcStdinWrittenArgs { id: args.id });\n    }\n    Err(IoErrorArgs::invalid_proc_id(args.id).into())"))
m("keep-c09-contains", "C09", (HP, "    match state.procs.lock().await.get_mut(&args.id) {\n        Some(local_proc) => {\n            local_proc.write_stdin(&args.input).await?;\n            Ok(ProcStdinWrittenArgs { id: args.id })\n        }\n        None => Err(IoErrorArgs::invalid_proc_id(args.id).into()),\n    }",
  "    let mut procs = state.procs.lock().await;\n    let local_proc = procs.get_mut(&args.id).ok_or_else(|| <IoErrorArgs as Into<io::Error>>::into(IoErrorArgs::invalid_proc_id(args.id)))?;\n    local_proc.write_stdin(&args.input).await?;\n    Ok(ProcStdinWrittenArgs { id: args.id })"))
m("keep-c09-helper", "C09", (IN, "        // Process the data as a packet\n        let p = Packet::from_slice(data)\n            .map_err(InputProcessorError::EncodePacket)?;\n", "        let p = parse(data)?;\n"), (IN, "fn verify_packet<V>(", "fn parse(data: &[u8]) -> Result<Packet, InputProcessorError> {\n    Packet::from_slice(data).map_err(InputProcessorError::EncodePacket)\n}\n\nfn verify_packet<V>("))
m("keep-c09-depth", ["C09", "C15"], (AC, "        if max_depth == 0 {\n            Reply::Error(ReplyError::from(\"Reached maximum nested depth\"))\n        } else {", "        if max_depth < 1 {\n            Reply::Error(ReplyError::from(\"Reached maximum nested depth\"))\n        } else {"))
m("keep-c09-get", "C09", ("core/transport/wire/udp.rs", "let data = self.inbound_wire.process(&buf[..size])?;", "let data = self.inbound_wire.process(buf.get(..size).unwrap_or(&[]))?;"))
WT = "core/transport/wire/tcp.rs"
WU = "core/transport/wire/udp.rs"
m("c10-udp-out-break", "C10", (EU, "            error!(\"Failed to send: {}\", x);\n", "            error!(\"Failed to send: {}\", x);\n            break;\n"))
m("c10-tcp-out-break", "C10", (ET, "            error!(\"Failed to send: {}\", x);\n", "            error!(\"Failed to send: {}\", x);\n            return;\n"))
m("c10-listener-out", "C10", (ET, "                error!(\"Failed to send to {}\", addr);\n", "                error!(\"Failed to send to {}\", addr);\n                break;\n"))
m("c10-process-err", "C10", (EV, "                error!(\"Process error on wire: {}\", x);\n                true", "                error!(\"Process error on wire: {}\", x);\n                false"))
m("c10-badmsg", "C10", (EV, "                        x\n                    );\n                    true", "                        x\n                    );\n                    data.is_empty()"))
m("c10-io-ignored", "C10", (EV, "                error!(\"Fatal IO on wire: {}\", x);\n                false", "                error!(\"Fatal IO on wire: {}\", x);\n                x.kind() == std::io::ErrorKind::UnexpectedEof"))
m("c10-eof", "C10", (WT, "        if size == 0 {", "        if size == usize::max_value() {"))
m("c10-eof2", "C10", (WT, "            return Err(InboundWireError::IO(\n                io::ErrorKind::UnexpectedEof.into(),\n            ));", "            return Ok((None, self.remote_addr));"))
m("c10-exec", "C10", (SV, "            error!(\"Failed to execute action: {}\", x);\n        }\n    }\n}\n\nasync fn udp", "            error!(\"Failed to execute action: {}\", x);\n            if let action::ActionError::RespondFailed = x {\n                return;\n            }\n        }\n    }\n}\n\nasync fn udp"))
m("c10-client", "C10", (CM, "        if let (Some(header), Content::Reply(reply)) =\n            (msg.parent_header.as_ref(), &msg.content)\n        {", "        if msg.parent_header.is_none() {\n            break;\n        }\n        if let (Some(header), Content::Reply(reply)) =\n            (msg.parent_header.as_ref(), &msg.content)\n        {"))
m("c10-next", "C10", (CI, "            Some((msg, _, _)) => Some(msg),\n            _ => None,", "            Some((msg, _, _)) if msg.parent_header.is_some() => Some(msg),\n            _ => None,"))
m("c10-unspawned", "C10", (EU, "        let inbound_handle = handle.spawn(udp_socket_inbound_loop(\n            tx.clone(),\n            reader,\n            on_inbound_tx,\n        ));", "        let inbound_handle = handle.spawn(async {});\n        let _ = udp_socket_inbound_loop(\n            tx.clone(),\n            reader,\n            on_inbound_tx,\n        );"))
m("c10-running", "C10", (SV, "async fn udp_event_loop(", "async fn udp_event_loop("), (SV, "        .execute(Arc::clone(&state), msg)\n        .await\n        {\n            error!(\"Failed to execute action: {}\", x);\n        }\n    }\n}\n\nasync fn cleanup", "        .execute(Arc::clone(&state), msg)\n        .await\n        {\n            error!(\"Failed to execute action: {}\", x);\n        }\n        if !state.is_running() {\n            break;\n        }\n    }\n}\n\nasync fn cleanup"))
m("keep-c10-loop", "C10", (EU, "    while let Some((msg, addr)) = rx.recv().await {\n        if let Err(x) = writer.write_to(&msg, addr).await {\n            error!(\"Failed to send: {}\", x);\n        }\n    }", "    loop {\n        let (msg, addr) = match rx.recv().await {\n            Some(x) => x,\n            None => return,\n        };\n        match writer.write_to(&msg, addr).await {\n            Ok(_) => continue,\n            Err(x) => error!(\"Failed to send: {}\", x),\n        }\n    }"))
m("keep-c10-helper", "C10", (EU, "        let tx_2 = tx.clone();\n        let result = reader.read().await;\n        if !super::process_inbound(result, tx_2, on_inbound_tx.clone()).await {\n            break;\n        }", "        if !step(&tx, &mut reader, &on_inbound_tx).await {\n            break;\n        }"), (EU, "async fn udp_socket_outbound_loop<S, E>(", "async fn step<V, D>(\n    tx: &mpsc::Sender<(Vec<u8>, SocketAddr)>,\n    reader: &mut UdpSocketInboundWire<V, D>,\n    on_inbound_tx: &mpsc::Sender<(\n        Msg,\n        SocketAddr,\n        mpsc::Sender<(Vec<u8>, SocketAddr)>,\n    )>,\n) -> bool\nwhere\n    V: Verifier,\n    D: Decrypter,\n{\n    let result = reader.read().await;\n    super::process_inbound(result, tx.clone(), on_inbound_tx.clone()).await\n}\n\nasync fn udp_socket_outbound_loop<S, E>("))
m("keep-c10-while", "C10", (ET, "    loop {\n        let tx_2 = tx.clone();\n        let result = reader.read().await;\n        if !super::process_inbound(result, tx_2, on_inbound_tx.clone()).await {\n            break;\n        }\n    }", "    let mut go = true;\n    while go {\n        let result = reader.read().await;\n        go = super::process_inbound(result, tx.clone(), on_inbound_tx.clone()).await;\n    }"))
m("keep-c10-eof", "C10", (WT, "        if size == 0 {", "        if size < 1 {"))
m("keep-c10-accept", "C10", (ET, "                error!(\"Listening for connections encountered error: {}\", x);\n                break;", "                error!(\"Listening for connections encountered error: {}\", x);\n                continue;"))
m("c11-err-ignore", "C11", (AC, "                        .map(Reply::ProcKilled)\n                        .unwrap_or_else(Reply::from)", "                        .map(Reply::ProcKilled)\n                        .unwrap_or(Reply::Ignore)"))
m("c11-err-generic", "C11", (AC, "                        .map(Reply::ProcStatus)\n                        .unwrap_or_else(Reply::from)", "                        .map(Reply::ProcStatus)\n                        .unwrap_or_else(|x| Reply::Error(ReplyError::from(x.to_string())))"))
m("c11-err-const", "C11", (AC, "                        .map(Reply::ProcStdinWritten)\n                        .unwrap_or_else(Reply::from)", "                        .map(Reply::ProcStdinWritten)\n                        .unwrap_or_else(|_| Reply::from(std::io::Error::from(std::io::ErrorKind::BrokenPipe)))"))
m("c11-special", "C11", (AC, "                Request::ReadFile(args) => handler::fs::read_file", "                Request::ReadFile(args) if args.sig.checked_add(1).is_none() => Reply::Ignore,\n                Request::ReadFile(args) => handler::fs::read_file"))
m("c11-other", "C11", (AC, "                    handler::fs::remove_unopened_file(state, &args)\n                        .await\n                        .map(Reply::UnopenedFileRemoved)\n                        .unwrap_or_else(Reply::from)", "                    match handler::fs::remove_unopened_file(Arc::clone(&state), &args).await {\n                        Ok(x) => Reply::UnopenedFileRemoved(x),\n                        Err(_) => handler::fs::remove_dir(state, &request::RemoveDirArgs { path: args.path, non_empty: false }).await.map(Reply::DirRemoved).unwrap_or_else(Reply::from),\n                    }"), (AC, "    reply, server::state", "    reply, request, server::state"))
m("c11-args", "C11", (AC, "                Request::ExecProc(args) => {\n", "                Request::ExecProc(mut args) => {\n                    args.args.dedup();\n"))
m("c11-twice", "C11", (AC, "                    handler::proc::read_proc_stdout(state, &args)\n                        .await\n", "                    handler::proc::read_proc_stdout(Arc::clone(&state), &args)\n                        .await\n                        .or(handler::proc::read_proc_stdout(state, &args).await)\n"))
m("c11-io-generic", "C11", ("core/msg/content/reply/mod.rs", "        Self::Io(IoErrorArgs::from(x))", "        Self::Generic(GenericErrorArgs::from(format!(\"{}\", x)))"))
m("c11-custom-default", "C11", (AC, "                        .map(Reply::Custom)\n                        .unwrap_or_else(Reply::from),", "                        .map(Reply::Custom)\n                        .unwrap_or(Reply::Ignore),"))
m("c11-state", "C11", (AC, "                Request::InternalDebug(args) => Reply::InternalDebug(\n                    handler::internal_debug::internal_debug(state, &args).await,", "                Request::InternalDebug(args) => Reply::InternalDebug(\n                    handler::internal_debug::internal_debug(Arc::new(ServerState::default()), &args).await,"))
m("keep-c11-match", ["C11", "C15", "C16", "C17"], (AC, "                    handler::proc::kill_proc(state, &args)\n                        .await\n                        .map(Reply::ProcKilled)\n                        .unwrap_or_else(Reply::from)", "                    match handler::proc::kill_proc(state, &args).await {\n                        Ok(x) => Reply::ProcKilled(x),\n                        Err(x) => Reply::Error(ReplyError::from(x)),\n                    }"))
m("keep-c11-helper", ["C11", "C15", "C16", "C17"], (AC, "                Request::KillProc(args) => {\n                    handler::proc::kill_proc(state, &args)\n                        .await\n                        .map(Reply::ProcKilled)\n                        .unwrap_or_else(Reply::from)\n                }", "                Request::KillProc(args) => do_kill(state, args).await,"), (AC, "/// Nested replies are", "async fn do_kill(state: Arc<ServerState>, args: crate::core::request::KillProcArgs) -> Reply {\n    let result = handler::proc::kill_proc(state, &args).await;\n    match result {\n        Ok(x) => Reply::ProcKilled(x),\n        Err(x) => x.into(),\n    }\n}\n\n/// Nested replies are"))
m("keep-c11-inner", ["C11", "C15", "C16", "C17"], (AC, "    async move {\n        if max_depth == 0 {", "    route(state, request, max_depth).boxed()\n}\n\nasync fn route(state: Arc<ServerState>, request: Request, max_depth: u8) -> Reply {\n        if max_depth == 0 {"), (AC, "            }\n        }\n    }\n    .boxed()\n}", "            }\n        }\n}"))
m("keep-c11-custom", ["C11"], (AC, "                Request::Custom(args) => match &state.custom_handler.as_ref() {\n                    Some(ch) => ch\n                        .invoke(args)\n                        .await\n                        .map(Reply::Custom)\n                        .unwrap_or_else(Reply::from),\n                    None => Reply::Ignore,\n                },", "                Request::Custom(args) => {\n                    if let Some(ch) = &state.custom_handler {\n                        match ch.invoke(args).await {\n                            Ok(x) => Reply::Custom(x),\n                            Err(x) => Reply::from(x),\n                        }\n                    } else {\n                        Reply::Ignore\n                    }\n                }"))
m("c15-batch", "C15", (AC, "                                req,\n                                max_depth - 1,\n                            ))", "                                req,\n                                max_depth,\n                            ))"))
m("c15-seq-last", "C15", (AC, "                    for op in args.operations.drain(..) {\n", "                    let single = args.operations.len() == 1;\n                    for op in args.operations.drain(..) {\n"), (AC, "                                        req,\n                                        max_depth - 1,\n                                    )", "                                        req,\n                                        if single { max_depth } else { max_depth - 1 },\n                                    )"))
m("c15-wrap", "C15", (AC, "        if max_depth == 0 {", "        if max_depth == 0 && matches!(request, Request::Sequence(_)) {"), (AC, "max_depth - 1", "max_depth.wrapping_sub(1)"))
m("c15-ignore", "C15", (AC, "            Reply::Error(ReplyError::from(\"Reached maximum nested depth\"))", "            Reply::Ignore"))
m("c15-exec", "C15", (AC, "            msg.content,\n            addr,\n            self.max_depth,", "            msg.content,\n            addr,\n            self.max_depth.max(Self::DEFAULT_MAX_DEPTH) + 1,"))
m("c15-max", "C15", (AC, "                                        req,\n                                        max_depth - 1,\n                                    )", "                                        req,\n                                        (max_depth - 1).max(1),\n                                    )"))
m("keep-c15-local", ["C11", "C15", "C16", "C17"], (AC, "            match request {\n                Request::Heartbeat => {", "            let nested = max_depth - 1;\n            match request {\n                Request::Heartbeat => {"), (AC, "                                        req,\n                                        max_depth - 1,", "                                        req,\n                                        nested,"), (AC, "                                req,\n                                max_depth - 1,", "                                req,\n                                nested,"))
m("keep-c15-checked", ["C11", "C15", "C16", "C17"], (AC, "        if max_depth == 0 {\n            Reply::Error(ReplyError::from(\"Reached maximum nested depth\"))\n        } else {", "        let nested = match max_depth.checked_sub(1) {\n            Some(x) => x,\n            None => return Reply::Error(ReplyError::from(\"Reached maximum nested depth\")),\n        };\n        {"), (AC, "                                        req,\n                                        max_depth - 1,", "                                        req,\n                                        nested,"), (AC, "                                req,\n                                max_depth - 1,", "                                req,\n                                nested,"))
SEQ = """                    let mut results: Vec<Reply> = vec![];
                    for op in args.operations.drain(..) {
                        results.push(
                            match try_transform_request(op, results.last()) {
                                Ok(req) => {
                                    route_and_execute(
                                        Arc::clone(&state),
                                        req,
                                        max_depth - 1,
                                    )
                                    .await
                                }
                                Err(x) => Reply::Error(ReplyError::from(
                                    format!("{}", x),
                                )),
                            },
                        );
                    }

                    let results =
                        results.into_iter().map(into_nested_reply).collect();
                    Reply::Sequence(reply::SequenceArgs { results })"""
m("c16-first", "C16", (AC, "try_transform_request(op, results.last())", "try_transform_request(op, results.first())"))
m("c16-skip-heartbeat", "C16", (AC, "        Some(Reply::Error(_)) => Err(SequenceError::Abort),", "        Some(Reply::Error(ReplyError::Generic(_))) => Err(SequenceError::Abort),"))
m("c16-norules", "C16", (AC, "        None => Ok(op.into_raw_request()),", "        None => Ok(op.into_raw_request()),\n        Some(_) if op.rules.is_empty() => Ok(op.into_raw_request()),"))
m("c16-transform-fail", "C16", (AC, "            .map_err(SequenceError::Transform),", "            .or(Ok(op.into_raw_request())),"))
m("c16-break", "C16", (AC, SEQ, SEQ.replace("                    }\n\n                    let results", "                        if let Some(Reply::Error(_)) = results.last() {\n                            break;\n                        }\n                    }\n\n                    let results")))
m("c16-rev", "C16", (AC, SEQ, SEQ.replace("drain(..)", "drain(..).rev()")))
m("c16-dedup", "C16", (AC, SEQ, SEQ.replace("let results =\n", "results.dedup();\n                    let results =\n")))
m("c16-filter", "C16", (AC, SEQ, SEQ.replace(".map(into_nested_reply)", ".filter(|r| *r != Reply::Ignore)")))
m("c16-retry", "C16", (AC, SEQ, SEQ.replace("""                                Ok(req) => {
                                    route_and_execute(
                                        Arc::clone(&state),
                                        req,
                                        max_depth - 1,
                                    )
                                    .await
                                }""", """                                Ok(req) => {
                                    let r = route_and_execute(
                                        Arc::clone(&state),
                                        req.clone(),
                                        max_depth - 1,
                                    )
                                    .await;
                                    if let Reply::Error(_) = r {
                                        route_and_execute(Arc::clone(&state), req, max_depth - 1).await
                                    } else {
                                        r
                                    }
                                }""")))
m("c16-insert0", "C16", (AC, SEQ, SEQ.replace("results.push(\n", "results.insert(0, \n")))
m("c16-ignore-skip", "C16", (AC, SEQ, SEQ.replace("                        results.push(\n                            match", "                        let r = match").replace("                            },\n                        );\n                    }", "                            };\n                        if r != Reply::Ignore { results.push(r); }\n                    }")))
m("keep-c16-prev", "C16", (AC, SEQ, """                    let mut results: Vec<Reply> = Vec::with_capacity(args.operations.len());
                    let mut ops = args.operations.into_iter();
                    while let Some(op) = ops.next() {
                        let req = match try_transform_request(op, results.last()) {
                            Ok(x) => x,
                            Err(x) => {
                                results.push(Reply::Error(ReplyError::from(x.to_string())));
                                continue;
                            }
                        };
                        let reply = route_and_execute(state.clone(), req, max_depth - 1).await;
                        results.push(reply);
                    }
                    let results = results.into_iter().map(|x| into_nested_reply(x)).collect();
                    Reply::Sequence(reply::SequenceArgs { results })"""))
m("keep-c16-helper", ["C11", "C15", "C16", "C17"], (AC, SEQ, "                    Reply::Sequence(reply::SequenceArgs { results: run_sequence(state, args.operations, max_depth - 1).await })"), (AC, "/// Nested replies are", """async fn run_sequence(
    state: Arc<ServerState>,
    operations: Vec<LazilyTransformedRequest>,
    depth: u8,
) -> Vec<Reply> {
    let mut results: Vec<Reply> = vec![];
    for op in operations {
        let reply = match try_transform_request(op, results.last()) {
            Ok(req) => route_and_execute(Arc::clone(&state), req, depth).await,
            Err(x) => Reply::Error(ReplyError::from(format!("{}", x))),
        };
        results.push(reply);
    }
    results.into_iter().map(into_nested_reply).collect()
}

/// Nested replies are"""), (AC, "Request::Sequence(mut args)", "Request::Sequence(args)"))
m("keep-c16-local", ["C16"], (AC, SEQ, """                    let mut results: Vec<Reply> = vec![];
                    let mut previous: Option<Reply> = None;
                    for op in args.operations.drain(..) {
                        let reply = match try_transform_request(op, previous.as_ref()) {
                            Ok(req) => route_and_execute(Arc::clone(&state), req, max_depth - 1).await,
                            Err(x) => Reply::Error(ReplyError::from(format!("{}", x))),
                        };
                        results.push(reply.clone());
                        previous = Some(reply);
                    }

                    let results =
                        results.into_iter().map(into_nested_reply).collect();
                    Reply::Sequence(reply::SequenceArgs { results })"""))
m("keep-c16-abort", ["C16"], (AC, "        Some(Reply::Error(_)) => Err(SequenceError::Abort),\n        Some(reply) => op\n            .transform_with_reply(reply)\n            .map_err(SequenceError::Transform),", "        Some(reply) => {\n            if let Reply::Error(_) = reply {\n                return Err(SequenceError::Abort);\n            }\n            match op.transform_with_reply(reply) {\n                Ok(x) => Ok(x),\n                Err(x) => Err(SequenceError::Transform(x)),\n            }\n        }"))
BAT = """                    let results: Vec<Reply> =
                        join_all(args.operations.drain(..).map(|req| {
                            Handle::current().spawn(route_and_execute(
                                Arc::clone(&state),
                                req,
                                max_depth - 1,
                            ))
                        }))
                        .await
                        .drain(..)
                        .map(|r| {
                            r.unwrap_or_else(|x| {
                                Reply::Error(From::from(format!("{}", x)))
                            })
                        })
                        .map(into_nested_reply)
                        .collect();
                    Reply::Batch(reply::BatchArgs { results })"""
def bat(*reps):
    s = BAT
    for a, b in reps:
        assert a in s, a
        s = s.replace(a, b)
    return (AC, BAT, s)
m("c17-filter", "C17", bat((".map(into_nested_reply)", ".filter(|r| *r != Reply::Ignore)")))
m("c17-nonest", "C17", bat((".map(into_nested_reply)", "")))
m("c17-filtermap", "C17", bat((""".map(|r| {
                            r.unwrap_or_else(|x| {
                                Reply::Error(From::from(format!("{}", x)))
                            })
                        })""", ".filter_map(|r| r.ok())")))
m("c17-unwrap", "C17", bat((""".map(|r| {
                            r.unwrap_or_else(|x| {
                                Reply::Error(From::from(format!("{}", x)))
                            })
                        })""", ".map(|r| r.unwrap())")))
m("c17-nospawn", "C17", bat(("""Handle::current().spawn(route_and_execute(
                                Arc::clone(&state),
                                req,
                                max_depth - 1,
                            ))""", """route_and_execute(
                                Arc::clone(&state),
                                req,
                                max_depth - 1,
                            )"""), (""".map(|r| {
                            r.unwrap_or_else(|x| {
                                Reply::Error(From::from(format!("{}", x)))
                            })
                        })""", "")))
m("c17-seq", "C17", (AC, BAT, """                    let mut results = vec![];
                    for req in args.operations.drain(..) {
                        let r = Handle::current().spawn(route_and_execute(Arc::clone(&state), req, max_depth - 1)).await;
                        results.push(into_nested_reply(r.unwrap_or_else(|x| Reply::Error(From::from(format!("{}", x))))));
                    }
                    Reply::Batch(reply::BatchArgs { results })"""), )
m("c17-unordered", "C17", (AC, BAT, """                    use futures::stream::{FuturesUnordered, StreamExt};
                    let tasks: FuturesUnordered<_> = args.operations.drain(..).map(|req| {
                            Handle::current().spawn(route_and_execute(
                                Arc::clone(&state),
                                req,
                                max_depth - 1,
                            ))
                        }).collect();
                    let _ = join_all(Vec::<BoxFuture<'static, ()>>::new());
                    let results: Vec<Reply> = tasks
                        .map(|r| {
                            into_nested_reply(r.unwrap_or_else(|x| {
                                Reply::Error(From::from(format!("{}", x)))
                            }))
                        })
                        .collect().await;
                    Reply::Batch(reply::BatchArgs { results })"""))
m("c17-stop", "C17", bat((".map(into_nested_reply)", """.scan(false, |failed, r| {
                            if *failed {
                                return Some(Reply::Error(From::from("aborted")));
                            }
                            *failed = matches!(r, Reply::Error(_));
                            Some(r)
                        })""")))
m("c17-err-hides", "C17", (AC, """    match reply {
        Reply::Ignore => {
            Reply::Error(ReplyError::from("Request does not have a reply"))
        }""", """    match reply {
        Reply::Ignore | Reply::Heartbeat => {
            Reply::Error(ReplyError::from("Request does not have a reply"))
        }"""))
m("c17-take", "C17", bat(("drain(..).map(|req|", "drain(..).take(64).map(|req|")))
m("keep-c17-combined", ["C11", "C15", "C17"], bat((""".map(|r| {
                            r.unwrap_or_else(|x| {
                                Reply::Error(From::from(format!("{}", x)))
                            })
                        })
                        .map(into_nested_reply)""", """.map(|r| match r {
                            Ok(x) => into_nested_reply(x),
                            Err(x) => Reply::Error(From::from(x.to_string())),
                        })""")))
m("keep-c17-loops", ["C11", "C15", "C17"], (AC, BAT, """                    let mut tasks = Vec::new();
                    for req in args.operations {
                        tasks.push(tokio::spawn(route_and_execute(Arc::clone(&state), req, max_depth - 1)));
                    }
                    let mut results = Vec::new();
                    for task in tasks {
                        let reply = match task.await {
                            Ok(x) => x,
                            Err(x) => Reply::Error(From::from(format!("{}", x))),
                        };
                        results.push(into_nested_reply(reply));
                    }
                    let _ = join_all(Vec::<BoxFuture<'static, ()>>::new());
                    Reply::Batch(reply::BatchArgs { results })"""), (AC, "Request::Batch(mut args)", "Request::Batch(args)"))
m("keep-c17-loop2", ["C17"], bat((""".drain(..)
                        .map(|r| {
                            r.unwrap""", """.into_iter()
                        .map(|r| {
                            r.unwrap"""), ("join_all(args.operations.drain(..).map", "join_all(args.operations.into_iter().map")), (AC, "Request::Batch(mut args)", "Request::Batch(args)"))
m("keep-c17-helper", ["C11", "C15", "C17"], bat(("let results: Vec<Reply> =\n                        join_all", "let tasks =\n                        join_all"), ("""))
                        .await
                        .drain(..)""", """));
                    let results: Vec<Reply> = tasks.await
                        .drain(..)""")))
m("c12-parent-none", "C12", (AC, "let new_msg = Msg::new(Content::Reply(reply), Some(parent_header));\n        let data = new_msg.to_vec().map_err(ActionError::MsgError)?;\n\n        origin_sender\n            .send(data)\n            .await\n            .map_err(|_| ActionError::RespondFailed)\n    }\n}\n\nimpl Executor<(Vec", "let new_msg = Msg::new(Content::Reply(reply), None);\n        let _ = parent_header;\n        let data = new_msg.to_vec().map_err(ActionError::MsgError)?;\n\n        origin_sender\n            .send(data)\n            .await\n            .map_err(|_| ActionError::RespondFailed)\n    }\n}\n\nimpl Executor<(Vec"))
m("c12-addr-memo", "C12", (SV, "    while let Some((msg, addr, tx)) = rx.recv().await {\n        if let Err(x) = action::Executor::<(Vec<u8>, SocketAddr)>::new(", "    let mut first = None;\n    while let Some((msg, addr, tx)) = rx.recv().await {\n        let addr = *first.get_or_insert(addr);\n        if let Err(x) = action::Executor::<(Vec<u8>, SocketAddr)>::new("))
m("c12-prev-addr", "C12", (EU, "    while let Some((msg, addr)) = rx.recv().await {\n", "    let mut last = None;\n    while let Some((msg, addr)) = rx.recv().await {\n        let addr = last.replace(addr).unwrap_or(addr);\n"))
m("c12-tcp-prev-tx", "C12", (SV, "    while let Some((msg, addr, tx)) = rx.recv().await {\n        if let Err(x) = action::Executor::<Vec<u8>>::new(", "    let mut last: Option<mpsc::Sender<Vec<u8>>> = None;\n    while let Some((msg, addr, tx)) = rx.recv().await {\n        let tx = last.get_or_insert(tx).clone();\n        if let Err(x) = action::Executor::<Vec<u8>>::new("))
m("c12-drop-batch", "C12", (SV, "    while let Some((msg, addr, tx)) = rx.recv().await {\n        if let Err(x) = action::Executor::<Vec<u8>>::new(", "    while let Some((msg, addr, tx)) = rx.recv().await {\n        if msg.parent_header.is_some() {\n            continue;\n        }\n        if let Err(x) = action::Executor::<Vec<u8>>::new("))
m("c12-twice", "C12", (AC, "        origin_sender\n            .send(data)\n            .await\n            .map_err(|_| ActionError::RespondFailed)\n    }\n}\n\nimpl Executor<(Vec", "        let _ = origin_sender.send(data.clone()).await;\n        origin_sender\n            .send(data)\n            .await\n            .map_err(|_| ActionError::RespondFailed)\n    }\n}\n\nimpl Executor<(Vec"))
m("c12-drop-errors", "C12", (AC, """            Reply::Ignore => Ok(()),
            _ => Self::respond(reply, header, origin_sender).await,
        }
    }

    async fn respond(
        reply: Reply,
        parent_header: Header,
        mut origin_sender: OriginSender<Vec<u8>>,""", """            Reply::Ignore | Reply::Heartbeat => Ok(()),
            _ => Self::respond(reply, header, origin_sender).await,
        }
    }

    async fn respond(
        reply: Reply,
        parent_header: Header,
        mut origin_sender: OriginSender<Vec<u8>>,"""))
m("c12-conn-addr", "C12", (ET, "        .insert(addr, event_manager.tx.clone());", "        .insert(SocketAddr::new(addr.ip(), 0), event_manager.tx.clone());"))
m("c12-any-conn", "C12", (ET, "connections.lock().await.get(&addr).cloned();", "connections.lock().await.values().next().cloned();"))
m("c12-msg-memo", "C12", (EV, "async fn process_inbound<T>(", "fn dummy() {}\nasync fn process_inbound<T>("), (EU, "    loop {\n        let tx_2 = tx.clone();\n        let result = reader.read().await;\n", "    let mut home = None;\n    loop {\n        let tx_2 = tx.clone();\n        let result = reader.read().await.map(|(d, a)| (d, *home.get_or_insert(a)));\n"))
m("c12-cross-tx", "C12", (ET, """        let inbound_handle = handle.spawn(tcp_stream_outbound_loop(rx, writer));
        let outbound_handle = handle.spawn(tcp_stream_inbound_loop(
            tx.clone(),""", """        let inbound_handle = handle.spawn(tcp_stream_outbound_loop(rx, writer));
        let (tx_2, _rx_2) = mpsc::channel::<Vec<u8>>(max_outbound_queue);
        let outbound_handle = handle.spawn(tcp_stream_inbound_loop(
            tx_2,"""))
m("keep-c12-merge", ["C12", "C11"], (AC, """        match reply {
            Reply::Ignore => Ok(()),
            _ => Self::respond(reply, header, origin_sender).await,
        }
    }

    async fn respond(
        reply: Reply,
        parent_header: Header,
        mut origin_sender: OriginSender<Vec<u8>>,
    ) -> Result<(), ActionError> {
        let new_msg = Msg::new(Content::Reply(reply), Some(parent_header));
        let data = new_msg.to_vec().map_err(ActionError::MsgError)?;

        origin_sender
            .send(data)
            .await
            .map_err(|_| ActionError::RespondFailed)
    }
""", """        if let Reply::Ignore = reply {
            return Ok(());
        }
        let mut origin_sender = origin_sender;
        let data = reply_bytes(reply, header)?;
        let sent = origin_sender.send(data).await;
        if sent.is_err() {
            return Err(ActionError::RespondFailed);
        }
        Ok(())
    }
"""), (AC, "struct OriginSender<T> {", "fn reply_bytes(reply: Reply, of: Header) -> Result<Vec<u8>, ActionError> {\n    let msg = Msg::new(Content::from(reply), Some(of));\n    match msg.to_vec() {\n        Ok(x) => Ok(x),\n        Err(x) => Err(ActionError::MsgError(x)),\n    }\n}\n\nstruct OriginSender<T> {"))
m("keep-c12-loops", ["C12", "C10"], (SV, "    while let Some((msg, addr, tx)) = rx.recv().await {\n        if let Err(x) = action::Executor::<(Vec<u8>, SocketAddr)>::new(", "    loop {\n        let event = match rx.recv().await {\n            Some(x) => x,\n            None => break,\n        };\n        let (msg, addr, tx) = event;\n        if let Err(x) = action::Executor::<(Vec<u8>, SocketAddr)>::new("),
  (ET, """        // NOTE: Cloning so the lock is released before we wait for room in the
        //       queue of this one connection
        let stream = connections.lock().await.get(&addr).cloned();
        if let Some(mut stream) = stream {
            if stream.send(msg).await.is_err() {
                error!("Failed to send to {}", addr);
            }
        }""", """        let stream = connections.lock().await.get(&addr).cloned();
        let mut stream = match stream {
            Some(x) => x,
            None => continue,
        };
        if stream.send(msg).await.is_err() {
            error!("Failed to send to {}", addr);
        }"""))
# ------------------------------------------------------------------ C13
CB = "utils/callback.rs"
SENDNOW = """        let result = match self.send_msg(msg).await {
            Ok(_) => tokio::time::timeout(timeout, rx)"""
m("c13-send-first", "C13", (CC, "        // Assign a synchronous callback that uses", "        let sent = self.send_msg(msg).await;\n        // Assign a synchronous callback that uses"), (CC, SENDNOW, """        let result = match sent {
            Ok(_) => tokio::time::timeout(timeout, rx)"""))
m("c13-left-on-timeout", "C13", (CC, "        if result.is_err() {\n            self.state", "        if let Err(AskError::SendFailed) = result {\n            self.state"))
m("c13-left-early", "C13", (CC, "            Err(x) => Err(AskError::from(x)),\n        };\n\n        // If we are", "            Err(x) => return Err(AskError::from(x)),\n        };\n\n        // If we are"))
m("c13-default-timeout", "C13", (CC, "let timeout = self.timeout;", "let timeout = std::cmp::max(self.timeout, Self::DEFAULT_TIMEOUT);"))
m("c13-own-id", "C13", (CM, ".invoke_callback(header.id, reply)", ".invoke_callback(msg.header.id, reply)"))
m("c13-callback-generic", "C13", (CC, "if let Reply::Error(ReplyError::Generic(x)) = &reply {", "if let Reply::Error(ReplyError::Generic(x)) = &reply.clone() {"), (CC, "                let result =\n                    if let", "                if let Reply::Ignore = reply {\n                    return;\n                }\n                let result =\n                    if let"))
m("c13-all-errors", "C13", (CC, "if let Reply::Error(ReplyError::Generic(x)) = &reply {\n                        tx.send(Err(AskError::Failure { msg: x.to_string() }))", "if let Reply::Error(x) = &reply {\n                        tx.send(Err(AskError::Failure { msg: x.to_string() }))"))
m("c13-take-all", "C13", (CC, "callback_manager.take_callback(id);", "callback_manager.callbacks.clear();"), (CB, "    callbacks: HashMap<u32", "    pub callbacks: HashMap<u32"))
m("c13-skip-error", "C13", (CM, "(msg.parent_header.as_ref(), &msg.content)\n        {", "(msg.parent_header.as_ref(), &msg.content)\n        {\n            if let Reply::Error(_) = reply {\n                continue;\n            }"), (CM, "use std::net::SocketAddr;", "use crate::core::Reply;\nuse std::net::SocketAddr;"))
m("c13-prev-reply", "C13", (CM, "    while let Some(msg) = r.next().await {\n", "    let mut last = None;\n    while let Some(msg) = r.next().await {\n"), (CM, "                .invoke_callback(header.id, reply)", "                .invoke_callback(header.id, last.get_or_insert_with(|| reply.clone()))"))
m("c13-bound", "C13", (CB, "        self.callbacks.insert(id, Box::new(callback));", "        if self.callbacks.len() > 1024 {\n            self.callbacks.retain(|k, _| *k > id);\n        }\n        self.callbacks.insert(id, Box::new(callback));"))
m("c13-timeout-maps", "C13", (CC, ".map_err(|_| AskError::Timeout),", ".map_err(|_| AskError::SendFailed),"))
m("keep-c13-match", ["C13", "C10"], (CC, """        let result = match self.send_msg(msg).await {
            Ok(_) => tokio::time::timeout(timeout, rx)
                .await
                .map_err(|_| AskError::Timeout),
            Err(x) => Err(AskError::from(x)),
        };

        // If we are no longer waiting for a reply, then the callback will never
        // be invoked and must not stay around
        if result.is_err() {
            self.state.lock().await.callback_manager.take_callback(id);
        }

        result?.map_err(|_| AskError::CallbackLost)?
    }
""", """        if let Err(x) = self.send_msg(msg).await {
            self.forget(id).await;
            return Err(x.into());
        }
        match tokio::time::timeout(timeout, rx).await {
            Ok(Ok(x)) => x,
            Ok(Err(_)) => Err(AskError::CallbackLost),
            Err(_) => {
                self.forget(id).await;
                Err(AskError::Timeout)
            }
        }
    }

    async fn forget(&self, id: u32) {
        let mut state = self.state.lock().await;
        drop(state.callback_manager.take_callback(id));
    }
"""))
m("keep-c13-closure", ["C13"], (CC, """                let result =
                    if let Reply::Error(ReplyError::Generic(x)) = &reply {
                        tx.send(Err(AskError::Failure { msg: x.to_string() }))
                    } else {
                        tx.send(Ok(reply.clone()))
                    };

                if result.is_err() {""", """                let answer = match reply {
                    Reply::Error(ReplyError::Generic(x)) => Err(AskError::Failure { msg: x.to_string() }),
                    x => Ok(x.clone()),
                };

                if tx.send(answer).is_err() {"""))
m("keep-c13-loop", ["C13", "C10"], (CM, """        state.lock().await.last_contact = Instant::now();

        if let (Some(header), Content::Reply(reply)) =
            (msg.parent_header.as_ref(), &msg.content)
        {
            state
                .lock()
                .await
                .callback_manager
                .invoke_callback(header.id, reply)
        }
""", """        let mut state = state.lock().await;
        state.last_contact = Instant::now();

        let parent = match &msg.parent_header {
            Some(x) => x.id,
            None => continue,
        };
        if let Content::Reply(ref reply) = msg.content {
            if let Some(f) = state.callback_manager.take_callback(parent) {
                f(reply);
            }
        }
"""))
# ------------------------------------------------------------------ C14
m("c14-swap-rename", "C14", (CC, "            .ask(Request::RenameDir(RenameDirArgs { from, to }))", "            .ask(Request::RenameDir(RenameDirArgs { from: to, to: from }))"))
m("c14-stderr", "C14", (CC, ".ask(Request::ReadProcStderr(ReadProcStderrArgs { id: proc.id }))", ".ask(Request::ReadProcStdout(ReadProcStdoutArgs { id: proc.id }))"), (CC, "            Reply::ProcStderrContents(args) => Ok(args),", "            Reply::ProcStderrContents(args) => Ok(args),\n            Reply::ProcStdoutContents(args) => Ok(ProcStderrContentsArgs { id: args.id, output: args.output }),"))
m("c14-sig-early", "C14", (CC, "            Reply::FileRemoved(args) => {\n                file.sig = args.sig;\n                Ok(args)\n            }\n            x =>", "            Reply::FileRemoved(args) => {\n                file.sig = args.sig;\n                Ok(args)\n            }\n            Reply::Error(ReplyError::FileSigChanged(args)) => {\n                file.sig = 0;\n                Err(FileAskError::FileSignatureChanged { id: args.id })\n            }\n            x =>"))
m("c14-no-sig", "C14", (CC, "            Reply::FileWritten(args) => {\n                file.sig = args.sig;\n                Ok(args)", "            Reply::FileWritten(args) => {\n                if file.sig < args.sig { file.sig = args.sig; }\n                Ok(args)"))
m("c14-io-swallowed", "C14", (CC, "        Reply::Error(ReplyError::Io(args)) => {\n            ExecAskError::IoError(args.into())", "        Reply::Error(ReplyError::Io(args)) if args.os_code.is_some() => {\n            ExecAskError::IoError(args.into())"))
m("c14-sig-id", "C14", (CC, "FileAskError::FileSignatureChanged { id: args.id }", "FileAskError::FileSignatureChanged { id: 0 }"))
m("c14-default-dir", "C14", (CC, "            true,\n            Some(current_dir),\n", "            true,\n            Some(current_dir).filter(|x| !x.is_empty()),\n"))
m("c14-flags", "C14", (CC, "                create_if_missing: create,\n                write_access: write,", "                create_if_missing: write,\n                write_access: create,"))
m("c14-handle", "C14", ("core/client/file.rs", "            sig: args.sig,", "            sig: args.id,"))
m("c14-failure-lost", "C14", (CC, """                contents: contents.to_vec(),
            }))
            .await;

        if let Err(x) = result {
            return Err(From::from(x));""", """                contents: contents.to_vec(),
            }))
            .await;

        if let Err(_) = result {
            return Err(From::from(AskError::Timeout));"""))
m("c14-retry", "C14", (CC, """        match self.ask(Request::Version).await? {""", """        match self.ask(Request::Version).await.or(self.ask(Request::Version).await)? {"""))
m("keep-c14-macro", ["C14"], (CC, """                id: file.id,
                sig: file.sig,
                contents: contents.to_vec(),
            }))
            .await;

        if let Err(x) = result {
            return Err(From::from(x));
        }

        match result.unwrap() {
            Reply::FileWritten(args) => {
                file.sig = args.sig;
                Ok(args)
            }
            x => Err(make_file_ask_error(x)),
        }""", """                id: file.id(),
                sig: file.sig,
                contents: Vec::from(contents),
            }))
            .await
            .map_err(FileAskError::from)?;

        if let Reply::FileWritten(args) = result {
            file.sig = args.sig;
            return Ok(args);
        }
        Err(make_file_ask_error(result))"""))
m("keep-c14-errors", ["C14"], (CC, """    match x {
        Reply::Error(ReplyError::Io(args)) => {
            FileAskError::IoError(args.into())
        }
        Reply::Error(ReplyError::FileSigChanged(args)) => {
            FileAskError::FileSignatureChanged { id: args.id }
        }
        x => From::from(make_ask_error(x)),
    }""", """    if let Reply::Error(error) = x {
        return match error {
            ReplyError::Io(args) => { let e: io::Error = args.into(); e.into() }
            ReplyError::FileSigChanged(args) => {
                let id = args.id;
                FileAskError::FileSignatureChanged { id }
            }
            other => FileAskError::GeneralAskFailed(make_ask_error(Reply::Error(other))),
        };
    }
    FileAskError::from(make_ask_error(x))"""), (CC, "use std::net::SocketAddr;", "use std::io;\nuse std::net::SocketAddr;"))
m("keep-c14-helper", ["C14", "C13"], (CC, """        let result = self
            .ask(Request::CloseFile(CloseFileArgs {
                id: file.id,
                sig: file.sig,
            }))
            .await;

        if let Err(x) = result {
            return Err(From::from(x));
        }

        match result.unwrap() {""", """        let reply = self.ask_of_file(Request::CloseFile(CloseFileArgs {
                id: file.id,
                sig: file.sig,
            }))
            .await?;

        match reply {"""), (CC, "    /// Requests to close an open file\n", "    async fn ask_of_file(&mut self, request: Request) -> Result<Reply, FileAskError> {\n        Ok(self.ask(request).await?)\n    }\n\n    /// Requests to close an open file\n"))
# ------------------------------------------------------------------ C18
RP, RQ, RI, EK, IE = "core/msg/content/reply/mod.rs", "core/msg/content/request/mod.rs", "core/msg/content/reply/io/mod.rs", "utils/serializers/error_kind.rs", "utils/serializers/io_error.rs"
m("c18-shared-name", "C18", (RP, '#[serde(rename = "read_proc_stderr_reply")]', '#[serde(rename = "read_proc_stdout_reply")]'))
m("c18-cross", "C18", (RQ, '#[serde(rename = "kill_proc_request")]', '#[serde(rename = "kill_proc_reply")]'))
m("c18-skip", "C18", (RP, '    #[serde(rename = "kill_proc_reply")]\n    ProcKilled', '    #[serde(skip_serializing, rename = "kill_proc_reply")]\n    ProcKilled'))
m("c18-asym", "C18", (RQ, '#[serde(rename = "write_file_request")]', '#[serde(rename(serialize = "write_file", deserialize = "write_file_request"))]'))
m("c18-kind", "C18", (RI, "            SerErrorKind::WriteZero => Self::WriteZero,\n            SerErrorKind::Interrupted => Self::Interrupted,", "            SerErrorKind::WriteZero | SerErrorKind::Interrupted => Self::WriteZero,"))
m("c18-kind-to", "C18", (RI, "            io::ErrorKind::TimedOut => Self::TimedOut,\n", ""))
m("c18-kind-fn", "C18", (EK, '"Interrupted" => serde::export::Ok(Field::field15)', '"Interrupted" => serde::export::Ok(Field::field14)'))
m("c18-kind-num", "C18", (EK, "                15u32,", "                14u32,"))
m("c18-code", "C18", (RI, "        let os_code = error.raw_os_error();", "        let os_code = error.raw_os_error().filter(|x| *x > 2);"))
m("c18-back", "C18", (RI, "        if let Some(code) = self.os_code {\n            io::Error::from_raw_os_error(code)", "        if let Some(code) = self.os_code.filter(|_| self.description.is_empty()) {\n            io::Error::from_raw_os_error(code)"))
m("c18-field", "C18", ("core/msg/content/reply/io/proc.rs", "    pub is_alive: bool,", "    #[serde(rename(serialize = \"alive\"))]\n    pub is_alive: bool,"))
m("c18-tagfield", "C18", ("core/msg/content/reply/generic_error.rs", "    pub msg: String,", "    #[serde(rename = \"type\")]\n    pub msg: String,"))
m("keep-c18-rename", ["C18", "C14"], (RP, '#[serde(rename = "read_proc_stderr_reply")]', '#[serde(rename = "read_proc_stderr_answer")]'))
m("keep-c18-table", ["C18"], (RI, "            io::ErrorKind::NotFound => Self::NotFound,\n            io::ErrorKind::PermissionDenied => Self::PermissionDenied,", "            io::ErrorKind::PermissionDenied => Self::PermissionDenied,\n            io::ErrorKind::NotFound => Self::NotFound,"), (RI, """        let error_kind = error.kind();
        let os_code = error.raw_os_error();
        let description = format!("{}", error);

        Self {
            description,
            error_kind: error_kind.into(),
            os_code,
        }""", """        Self {
            os_code: error.raw_os_error(),
            error_kind: SerErrorKind::from(error.kind()),
            description: error.to_string(),
        }"""), (RI, """        if let Some(code) = self.os_code {
            io::Error::from_raw_os_error(code)
        } else {
            io::Error::new(self.error_kind.into(), self.description)
        }""", """        match self.os_code {
            Some(code) => io::Error::from_raw_os_error(code),
            None => {
                let kind: io::ErrorKind = self.error_kind.into();
                io::Error::new(kind, self.description)
            }
        }"""))

# ------------------------------------------------------------------ C19
SIGC = "        if self.sig != sig {\n            return Err(LocalFileError::SigMismatch);\n        }\n\n"
m("c19-remove-nocheck", "C19", (FF, SIGC + "        remove(self.path", "        let _ = sig;\n        remove(self.path"))
m("c19-read-late", "C19", (FF, SIGC + "        let mut buf = Vec::new();\n\n        self.file\n            .seek(SeekFrom::Start(0))\n            .await\n            .map_err(LocalFileError::IoError)?;\n", "        let mut buf = Vec::new();\n\n        self.file\n            .seek(SeekFrom::Start(0))\n            .await\n            .map_err(LocalFileError::IoError)?;\n\n" + SIGC))
m("c19-older", "C19", (FF, "        if self.sig != sig {\n            return Err(LocalFileError::SigMismatch);\n        }\n\n        remove(", "        if self.sig > sig {\n            return Err(LocalFileError::SigMismatch);\n        }\n\n        remove("))
UPD = "        // Update our sig after we first touch the file so we guarantee\n        // that any modification (even partial) is reflected as a change\n        self.sig = OsRng.next_u32();\n\n"
WR = "        self.file\n            .write_all(buf)\n            .await\n            .map_err(LocalFileError::IoError)?;\n\n"
m("c19-write-after", "C19", (FF, UPD + WR, WR + UPD))
m("c19-write-last", "C19", (FF, UPD + WR + "        self.file.flush().await.map_err(LocalFileError::IoError)", WR + "        self.file.flush().await.map_err(LocalFileError::IoError)?;\n        self.sig = OsRng.next_u32();\n        Ok(())"))
m("c19-write-empty", "C19", (FF, UPD, "        if !buf.is_empty() {\n            self.sig = OsRng.next_u32();\n        }\n\n"))
m("c19-rename-count", "C19", (FF, "        self.sig = OsRng.next_u32();\n        self.path", "        self.sig = self.sig.wrapping_add(1);\n        self.path"))
m("c19-remove-same", "C19", (FF, "        // Update signature to reflect the change\n        self.sig = OsRng.next_u32();\n\n        Ok(())", "        Ok(())"))
m("c19-rename-same-dir", "C19", (FF, "        self.sig = OsRng.next_u32();\n        self.path", "        if self.path.parent() != to.as_ref().parent() {\n            self.sig = OsRng.next_u32();\n        }\n        self.path"))
m("c19-read-new", "C19", (FF, "        Ok(buf)\n", "        self.sig = OsRng.next_u32();\n        Ok(buf)\n"))
m("c19-close-any", "C19", (FM, "Entry::Occupied(x) if x.get().sig == handle.sig => Ok(x.remove())", "Entry::Occupied(x) if x.get().sig == handle.sig || !x.get().permissions().write => Ok(x.remove())"))
m("c19-close-remove", "C19", (FM, "        match self.files.entry(handle.id) {\n            Entry::Occupied(x) if x.get().sig == handle.sig => Ok(x.remove()),", "        match self.files.remove(&handle.id).map(|f| { let sig = f.sig; let id = f.id; self.files.insert(id, f); (id, sig) }) {\n            Some((_, sig)) if sig == handle.sig => Ok(self.files.remove(&handle.id).unwrap()),"),
  (FM, "            Entry::Occupied(_) => Err(", "            Some(_) => Err("), (FM, "            Entry::Vacant(_) => Err(", "            None => Err("), (FM, "use std::collections::{hash_map::Entry, HashMap};", "use std::collections::HashMap;"))
m("c19-handler-current", "C19", (HF, "match local_file.read_all(args.sig).await", "match local_file.read_all(local_file.sig()).await"))
m("c19-handler-old", "C19", (HF, "        Some(local_file) => match local_file.rename(args.sig, &args.to).await {\n            Ok(_) => Ok(FileRenamedArgs {\n                id: args.id,\n                sig: local_file.sig(),", "        Some(local_file) => match local_file.rename(args.sig, &args.to).await {\n            Ok(_) => Ok(FileRenamedArgs {\n                id: args.id,\n                sig: args.sig,"))
m("c19-handler-before", "C19", (HF, "            match local_file.write_all(args.sig, &args.contents).await {\n                Ok(_) => Ok(FileWrittenArgs {\n                    id: args.id,\n                    sig: local_file.sig(),", "            let sig = local_file.sig();\n            match local_file.write_all(args.sig, &args.contents).await {\n                Ok(_) => Ok(FileWrittenArgs {\n                    id: args.id,\n                    sig,"))
m("c19-handler-mismatch", "C19", (HF, "            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {\n                id: args.id,\n                sig: local_file.sig(),\n            }),\n            Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),\n        },\n        None => Err(FileIoError::Io(\n            IoErrorArgs::invalid_file_id(args.id).into(),\n        )),\n    }\n}\n\npub async fn write_file", "            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {\n                id: args.id,\n                sig: args.sig,\n            }),\n            Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),\n        },\n        None => Err(FileIoError::Io(\n            IoErrorArgs::invalid_file_id(args.id).into(),\n        )),\n    }\n}\n\npub async fn write_file"))
m("c19-close-handler", "C19", (HF, "    let _ = state.fs_manager.lock().await.close_file(handle)?;\n", "    let mut manager = state.fs_manager.lock().await;\n    if let Some(f) = manager.get(args.id) {\n        let current = f.handle();\n        let strict = f.permissions().write;\n        let _ = manager.close_file(if strict { handle } else { current })?;\n    }\n    drop(manager);\n"))
m("keep-c19-helper", ["C19", "C20", "C21", "C23", "C30"], *[(FF, SIGC, "        self.check(sig)?;\n")] * 4, (FF, "    pub fn id(&self) -> u32 {\n", "    fn check(&self, sig: u32) -> Result<()> {\n        if sig == self.sig {\n            Ok(())\n        } else {\n            Err(LocalFileError::SigMismatch)\n        }\n    }\n\n    fn touch(&mut self) {\n        self.sig = OsRng.next_u32();\n    }\n\n    pub fn id(&self) -> u32 {\n"),
  (FF, "        // Update signature to reflect the change\n        self.sig = OsRng.next_u32();\n", "        self.touch();\n"), (FF, UPD, "        self.touch();\n"))
m("keep-c19-close", ["C19", "C23"], (FM, """        match self.files.entry(handle.id) {
            Entry::Occupied(x) if x.get().sig == handle.sig => Ok(x.remove()),
            Entry::Occupied(_) => Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                format!("Signature invalid for file with id {}", handle.id),
            )),
            Entry::Vacant(_) => Err(io::Error::new(
                io::ErrorKind::NotFound,
                format!("No open file with id {}", handle.id),
            )),
        }""", """        let LocalFileHandle { id, sig } = handle;
        let current = self.files.get(&id).map(|file| file.sig());
        match current {
            None => Err(io::Error::new(
                io::ErrorKind::NotFound,
                format!("No open file with id {}", id),
            )),
            Some(current) if current != sig => Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                format!("Signature invalid for file with id {}", id),
            )),
            Some(_) => Ok(self.files.remove(&id).expect("just found")),
        }"""), (FM, "use std::collections::{hash_map::Entry, HashMap};", "use std::collections::HashMap;"))
m("keep-c19-handlers", ["C19", "C22", "C23", "C30"], (HF, """        Some(local_file) => match local_file.read_all(args.sig).await {
            Ok(contents) => Ok(FileContentsArgs {
                id: args.id,
                contents,
            }),
            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
                id: args.id,
                sig: local_file.sig(),
            }),
            Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),
        },
        None => Err(FileIoError::Io(
            IoErrorArgs::invalid_file_id(args.id).into(),
        )),""", """        Some(local_file) => local_file
            .read_all(args.sig)
            .await
            .map(|contents| FileContentsArgs {
                id: args.id,
                contents,
            })
            .map_err(|x| file_error(local_file, x)),
        None => Err(no_such_file(args.id)),"""), (HF, """            Ok(_) => Ok(FileRenamedArgs {
                id: args.id,
                sig: local_file.sig(),
            }),
            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
                id: args.id,
                sig: local_file.sig(),
            }),
            Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),
""", """            Ok(sig) => Ok(FileRenamedArgs { id: args.id, sig }),
            Err(x) => Err(file_error(local_file, x)),
"""), (HF, "pub async fn open_file(", """fn no_such_file(id: u32) -> FileIoError {
    FileIoError::Io(IoErrorArgs::invalid_file_id(id).into())
}

fn file_error(file: &crate::core::server::fs::LocalFile, x: LocalFileError) -> FileIoError {
    match x {
        LocalFileError::SigMismatch => FileIoError::SigMismatch {
            id: file.id(),
            sig: file.sig(),
        },
        LocalFileError::IoError(x) => FileIoError::Io(x),
    }
}

pub async fn open_file(
"""))

# ------------------------------------------------------------------ C20
CHK = "            if f.path().starts_with(path.as_ref()) {\n"
m("c20-exact", "C20", (FM, CHK, "            if f.path() == path.as_ref() {\n"))
m("c20-parent", "C20", (FM, CHK, "            if f.path() == path.as_ref() || f.path().parent() == Some(path.as_ref()) {\n"))
m("c20-writable", "C20", (FM, CHK, "            if f.permissions().write && f.path().starts_with(path.as_ref()) {\n"))
m("c20-first", "C20", (FM, "        for f in self.files.values() {\n", "        for f in self.files.values().take(32) {\n"))
m("c20-next", "C20", (FM, "        for f in self.files.values() {\n", "        if let Some(f) = self.files.values().next() {\n"))
m("c20-swap", "C20", (FM, CHK, "            if path.as_ref().starts_with(f.path()) {\n"))
m("c20-raw-check", "C20", (FM, "        let from = clean_path(from.as_ref()).await;\n        let to = clean_path(to.as_ref()).await;\n\n        self.check_no_open_files(from.as_path())?;\n\n        // No", "        self.check_no_open_files(from.as_ref())?;\n\n        let from = clean_path(from.as_ref()).await;\n        let to = clean_path(to.as_ref()).await;\n\n        // No"))
m("c20-raw-both", "C20", (FM, "        let path = clean_path(path.as_ref()).await;\n\n        self.check_no_open_files(path.as_path())?;\n\n        file::remove(path).await", "        self.check_no_open_files(path.as_ref())?;\n\n        file::remove(path.as_ref()).await"))
m("c20-empty-only", "C20", (FM, "        self.check_no_open_files(path.as_path())?;\n\n        // No open file is within this directory, so good to attempt to remove\n", "        if non_empty {\n            self.check_no_open_files(path.as_path())?;\n        }\n\n"))
m("c20-to", "C20", (FM, "        self.check_no_open_files(from.as_path())?;\n\n        file::rename", "        self.check_no_open_files(to.as_path())?;\n\n        file::rename"))
m("c20-late", "C20", (FM, "        self.check_no_open_files(path.as_path())?;\n\n        file::remove(path).await", "        let result = file::remove(path.as_path()).await;\n        self.check_no_open_files(path.as_path())?;\n        result"))
m("c20-open-raw", "C20", (FF, "                let cpath = fs::canonicalize(path).await?;\n", "                let cpath = path.as_ref().to_path_buf();\n"))
m("c20-open-fallback", "C20", (FF, "                let cpath = fs::canonicalize(path).await?;\n", "                let cpath = if create { path.as_ref().to_path_buf() } else { fs::canonicalize(path).await? };\n"))
m("c20-rename-raw", "C20", (FF, "        self.path = fs::canonicalize(to.as_ref())\n            .await\n            .unwrap_or_else(|_| to.as_ref().to_path_buf());\n", "        self.path = to.as_ref().to_path_buf();\n"))
m("c20-rename-keep", "C20", (FF, "        self.path = fs::canonicalize(to.as_ref())\n            .await\n            .unwrap_or_else(|_| to.as_ref().to_path_buf());\n", "        if let Ok(path) = fs::canonicalize(to.as_ref()).await {\n            self.path = path;\n        }\n"))
m("c20-rename-early", "C20", (FF, "        rename(self.path.as_path(), to.as_ref())\n", "        let cpath = fs::canonicalize(to.as_ref()).await.unwrap_or_else(|_| to.as_ref().to_path_buf());\n        rename(self.path.as_path(), to.as_ref())\n"), (FF, "        self.path = fs::canonicalize(to.as_ref())\n            .await\n            .unwrap_or_else(|_| to.as_ref().to_path_buf());\n", "        self.path = cpath;\n"))
m("c20-bypass", "C20", (HF, "    state\n        .fs_manager\n        .lock()\n        .await\n        .remove_file(&args.path)\n        .await?;\n", "    let _ = &state;\n    tokio::fs::remove_file(&args.path).await?;\n"))
m("keep-c20-any", ["C20"], (FM, """        for f in self.files.values() {
            if f.path().starts_with(path.as_ref()) {
                return Err(io::Error::new(
                    io::ErrorKind::InvalidData,
                    format!(
                        "File at {:?} is open and must be closed",
                        f.path()
                    ),
                ));
            }
        }

        Ok(())""", """        if self.files.values().any(|f| f.path().starts_with(path.as_ref())) {
            return Err(io::Error::new(
                io::ErrorKind::InvalidData,
                format!("A file at {:?} is open and must be closed", path.as_ref()),
            ));
        }

        Ok(())"""))
m("keep-c20-find", ["C20"], (FM, """        for f in self.files.values() {
            if f.path().starts_with(path.as_ref()) {
                return Err(io::Error::new(
                    io::ErrorKind::InvalidData,
                    format!(
                        "File at {:?} is open and must be closed",
                        f.path()
                    ),
                ));
            }
        }

        Ok(())""", """        let path = path.as_ref();
        match self.files.values().map(LocalFile::path).find(|p| p.starts_with(path)) {
            Some(open) => Err(io::Error::new(
                io::ErrorKind::InvalidData,
                format!("File at {:?} is open and must be closed", open),
            )),
            None => Ok(()),
        }"""))
m("keep-c20-filter", ["C20"], (FM, """        for f in self.files.values() {
            if f.path().starts_with(path.as_ref()) {
                return Err(io::Error::new(
                    io::ErrorKind::InvalidData,
                    format!(
                        "File at {:?} is open and must be closed",
                        f.path()
                    ),
                ));
            }
        }

        Ok(())""", """        let path = path.as_ref();
        for (_, f) in self.files.iter() {
            if !f.path().starts_with(path) {
                continue;
            }
            return Err(io::Error::new(
                io::ErrorKind::InvalidData,
                format!("File at {:?} is open and must be closed", f.path()),
            ));
        }

        Ok(())"""))
m("keep-c20-clean", ["C20", "C21"], (FM, """    tokio::fs::canonicalize(path.as_ref())
        .await
        .ok()
        .unwrap_or_else(|| path.as_ref().to_path_buf())""", """    match tokio::fs::canonicalize(path.as_ref()).await {
        Ok(path) => path,
        Err(_) => path.as_ref().to_path_buf(),
    }"""), (FM, "        let from = clean_path(from.as_ref()).await;\n        let to = clean_path(to.as_ref()).await;\n\n        self.check_no_open_files(from.as_path())?;\n\n        // No", "        let (to, from) = (clean_path(to.as_ref()).await, self.unopened(from.as_ref()).await?);\n\n        // No"),
  (FM, "    fn check_no_open_files", "    async fn unopened(&self, path: &Path) -> io::Result<PathBuf> {\n        let path = clean_path(path).await;\n        self.check_no_open_files(&path)?;\n        Ok(path)\n    }\n\n    fn check_no_open_files"))

# ------------------------------------------------------------------ C21
m("c21-truncate", "C21", (FF, "            .create(create)\n            .write(write)", "            .create(create)\n            .truncate(create && write && !read)\n            .write(write)"))
m("c21-always-create", "C21", (FF, "            .create(create)\n", "            .create(create || write)\n"))
m("c21-read-too", "C21", (FF, "            .read(read)\n", "            .read(read || !write)\n"))
m("c21-append", "C21", (FF, "            .read(read)\n", "            .read(read)\n            .append(write && !create)\n"))
m("c21-claims", "C21", (FF, "let permissions = LocalFilePermissions { write, read };", "let permissions = LocalFilePermissions { write, read: read || write };"))
COND = "if (permissions.read || !read) && (permissions.write || !write) {"
m("c21-or", "C21", (FM, COND, "if (permissions.read || !read) || (permissions.write || !write) {"))
m("c21-exact", "C21", (FM, COND, "if permissions.read == read && permissions.write == write {"))
m("c21-write-implies", "C21", (FM, COND, "if permissions.write || (permissions.read && !write) {"))
m("c21-no-union", "C21", (FM, "                new_permissions.read = permissions.read || read;\n", ""))
m("c21-swap", "C21", (FM, "            new_permissions.write,\n            new_permissions.read,", "            new_permissions.read,\n            new_permissions.write,"))
m("c21-newsig", "C21", (FM, "            new_file.sig = sig;\n", "            let _ = sig;\n"))
m("c21-close-first", "C21", (FM, "                maybe_id_and_sig = Some((id, sig));\n", "                maybe_id_and_sig = Some((id, sig));\n                self.files.remove(&id);\n"))
m("c21-raw-lookup", "C21", (FM, "        let path = clean_path(path.as_ref()).await;\n\n        let mut new_permissions", "        let path = path.as_ref().to_path_buf();\n\n        let mut new_permissions"))
m("c21-name-lookup", "C21", (FM, "self.files.values_mut().find(|f| f.path() == path.as_path());", "self.files.values_mut().find(|f| f.path() == path.as_path() && (f.permissions().write || !write));"))
m("c21-no-insert", "C21", (FM, "        self.files.insert(new_file.id(), new_file);\n", "        if maybe_id_and_sig.is_none() {\n            self.files.insert(new_file.id(), new_file);\n        }\n"))
m("c21-handle-before", "C21", (FM, "        // If we already had a file open with this path, we want to assign\n", "        let handle = new_file.handle();\n\n        // If we already had a file open with this path, we want to assign\n"), (FM, "        let handle = new_file.handle();\n        self.files.insert", "        self.files.insert"))
m("c21-handler", "C21", (HF, "            args.write_access,\n            args.read_access,\n        )", "            args.read_access,\n            args.write_access,\n        )"))
m("c21-handler-create", "C21", (HF, "            args.create_if_missing,\n", "            args.create_if_missing || args.write_access,\n"))
m("keep-c21-helper", ["C21", "C19", "C20", "C30"], (FM, COND, "if permissions.covers(&new_permissions) {"), (FM, """                new_permissions.read = permissions.read || read;
                new_permissions.write = permissions.write || write;
""", """                new_permissions = permissions.merged(new_permissions);
"""), (FF, "#[derive(Debug)]\npub struct LocalFile {", """impl LocalFilePermissions {
    pub fn covers(&self, other: &LocalFilePermissions) -> bool {
        self.read >= other.read && self.write >= other.write
    }

    pub fn merged(self, other: LocalFilePermissions) -> Self {
        Self {
            read: self.read | other.read,
            write: self.write | other.write,
        }
    }
}

#[derive(Debug)]
pub struct LocalFile {"""))
m("keep-c21-loop", ["C21", "C20"], (FM, """        let search =
            self.files.values_mut().find(|f| f.path() == path.as_path());
""", """        let mut search = None;
        for f in self.files.values() {
            if path.as_path() == f.path() {
                search = Some(f);
                break;
            }
        }
"""), (FM, """            if (permissions.read || !read) && (permissions.write || !write) {
                return Ok(file.handle());
            } else {""", """            let more = (read && !permissions.read) || (write && !permissions.write);
            if !more {
                return Ok(LocalFileHandle { id, sig });
            } else {"""))
m("keep-c21-early", ["C21"], (FM, """        // If we already had a file open with this path, we want to assign
        // the previously-used id and sig
        if let Some((id, sig)) = maybe_id_and_sig {
            new_file.id = id;
            new_file.sig = sig;
        }

        // Insert the file & permissions, overwriting the
        // existing file/permissions
        let handle = new_file.handle();
        self.files.insert(new_file.id(), new_file);

        Ok(handle)""", """        Ok(self.keep(new_file, maybe_id_and_sig))"""), (FM, "        let mut new_file = LocalFile::open(", "        let new_file = LocalFile::open("), (FM, "    fn check_no_open_files", """    fn keep(&mut self, mut file: LocalFile, old: Option<(u32, u32)>) -> LocalFileHandle {
        match old {
            Some((id, sig)) => {
                file.id = id;
                file.sig = sig;
            }
            None => (),
        }
        let handle = file.handle();
        let _ = self.files.insert(handle.id, file);
        handle
    }

    fn check_no_open_files"""))
m("keep-c21-options", ["C21"], (FF, """        match OpenOptions::new()
            .create(create)
            .write(write)
            .read(read)
            .open(&path)
            .await
        {
            Ok(file) => {
                let cpath = fs::canonicalize(path).await?;
                let permissions = LocalFilePermissions { write, read };
                Ok(Self::new(file, permissions, cpath))
            }
            Err(x) => Err(x),
        }""", """        let permissions = LocalFilePermissions { write, read };
        let mut options = OpenOptions::new();
        options.read(permissions.read).write(permissions.write);
        if create {
            options.create(true);
        }
        let file = options.open(path.as_ref()).await?;
        let cpath = fs::canonicalize(path.as_ref()).await?;
        Ok(Self::new(file, permissions, cpath))"""))

# ------------------------------------------------------------------ C22
def touch(fn, was="state.touch_file_id(args.id).await;", now="", f=None):
    return (f or HF, 'debug!("handler::%s: {:?}", args);\n    %s' % (fn, was), 'debug!("handler::%s: {:?}", args);\n    %s' % (fn, now))

PT = "state.touch_proc_id(args.id).await;"
for fn in ("rename_file", "read_file", "write_file"):
    m("c22-no-touch-" + fn, "C22", touch(fn))
for fn in ("write_proc_stdin", "read_proc_stdout", "read_proc_stderr", "read_proc_status"):
    m("c22-no-touch-" + fn, "C22", touch(fn, PT, f=HP))
m("c22-file-dead-ttl", "C22", touch("read_file", now="state.touch_file_id_with_ttl(args.id, state.dead_proc_ttl).await;"))
m("c22-touch-file-as-proc", "C22", touch("read_file", now="state.touch_proc_id(args.id).await;"))
m("c22-touch-sig", "C22", touch("write_file", now="state.touch_file_id(args.sig).await;"))
m("c22-live-dead-ttl", "C22", (HP, "            None => Ok(ProcStatusArgs {\n                id: args.id,\n                is_alive: true,\n                exit_code: None,\n            }),", """            None => {
                state.touch_proc_id_with_ttl(args.id, state.dead_proc_ttl).await;
                Ok(ProcStatusArgs {
                    id: args.id,
                    is_alive: true,
                    exit_code: None,
                })
            }"""))
m("c22-dead-not-short", "C22", (HP, "                    .touch_proc_id_with_ttl(args.id, state.dead_proc_ttl)\n", "                    .touch_proc_id(args.id)\n"))
m("c22-insert", "C22", (SS, "self.file_ids.lock().await.replace(TtlValue::new(id, ttl));", "self.file_ids.lock().await.insert(TtlValue::new(id, ttl));"))
m("c22-insert-proc", "C22", (SS, "self.proc_ids.lock().await.replace(TtlValue::new(id, ttl));", "self.proc_ids.lock().await.insert(TtlValue::new(id, ttl));"))
m("c22-touch-ttl-swapped", "C22", (SS, "self.touch_file_id_with_ttl(id, self.file_ttl).await;", "self.touch_file_id_with_ttl(id, self.proc_ttl).await;"))
m("c22-touch-proc-dead", "C22", (SS, "self.touch_proc_id_with_ttl(id, self.proc_ttl).await;", "self.touch_proc_id_with_ttl(id, self.dead_proc_ttl).await;"))
m("c22-ids-swapped", "C22", (SS, "        self.proc_ids.lock().await.replace(TtlValue::new(id, ttl));", "        self.file_ids.lock().await.replace(TtlValue::new(id, ttl));"))
m("c22-exec-no-touch", "C22", (HP, "    state.touch_proc_id(id).await;\n    Ok(ProcStartedArgs { id })", "    Ok(ProcStartedArgs { id })"))
m("c22-open-no-touch", "C22", (HF, "    state.touch_file_id(handle.id).await;\n", "    if !args.write_access {\n        state.touch_file_id(handle.id).await;\n    }\n"))
m("c22-open-touch-sig", "C22", (HF, "    state.touch_file_id(handle.id).await;\n", "    state.touch_file_id(handle.sig).await;\n"))
m("c22-touch-only-nonempty", "C22", touch("write_file", now="if !args.contents.is_empty() { state.touch_file_id(args.id).await; }"))
m("c22-evict-keep", "C22", (SS, "                    if let Err(x) = fsm.close_file(h) {\n                        error!(\"Failed to evict file {}: {}\", **v, x);\n                    }", "                    error!(\"Evicting file {}: {:?}\", **v, h);"), (SS, "let mut fsm = ", "let fsm = "))
m("c22-evict-no-kill", "C22", (SS, "if let Some(mut proc) = proc_map.remove(&**v) {\n                    if let Err(x) = proc.kill() {\n                        error!(\"Failed to kill proc {}: {}\", **v, x);\n                    }", "if let Some(proc) = proc_map.remove(&**v) {\n                    error!(\"Dropping proc {}: {:?}\", **v, proc);"))
m("c22-evict-close-first", "C22", (SS, "                let handle = fsm.get(**v).map(|f| f.handle());", "                let handle = fsm.get(0u32).map(|f| f.handle());"))
m("c22-evict-all", "C22", (SS, "            if expired {\n                let handle", "            if expired || v.value % 64 == 63 {\n                let handle"))
m("c22-evict-exec", "C22", (SS, "            if expired {\n                if let Some(mut proc)", "            if !expired {\n                if let Some(mut proc)"))
m("c22-keep-inverted", "C22", (SS, "            !expired\n        });\n    }\n\n    /// Creates or updates an internal TTL for a proc with `id` using the\n    /// state", "            expired\n        });\n    }\n\n    /// Creates or updates an internal TTL for a proc with `id` using the\n    /// state"))
m("c22-kept-on-error", "C22", (SS, "                    if let Err(x) = proc.kill() {\n                        error!(\"Failed to kill proc {}: {}\", **v, x);\n                    }", "                    if let Err(x) = proc.kill() {\n                        error!(\"Failed to kill proc {}: {}\", **v, x);\n                        return true;\n                    }"))
m("c22-evict-other-ids", "C22", (SS, "        let mut proc_map = self.procs.lock().await;\n        self.proc_ids.lock()", "        let mut proc_map = self.procs.lock().await;\n        self.file_ids.lock()"))
m("c22-expiry-swapped", "C22", (TT, "self.last_touched.elapsed().checked_sub(self.ttl).is_some()", "self.ttl.checked_sub(self.last_touched.elapsed()).is_some()"))
m("c22-expiry-never", "C22", (TT, "self.last_touched.elapsed().checked_sub(self.ttl).is_some()", "self.last_touched.elapsed().checked_sub(self.ttl * 2).is_some()"))
m("c22-expiry-none", "C22", (TT, "self.last_touched.elapsed().checked_sub(self.ttl).is_some()", "self.last_touched.elapsed().checked_sub(self.ttl).is_none()"))
m("c22-eq-ttl", "C22", (TT, "        self.value == other.value\n", "        self.value == other.value && self.ttl == other.ttl\n"))
m("c22-hash-ttl", "C22", (TT, "        self.value.hash(state);", "        self.value.hash(state);\n        self.ttl.hash(state);"))
m("c22-state-swapped", "C22", (SS, "            file_ttl,\n            procs", "            file_ttl: proc_ttl,\n            procs"), (SS, "            proc_ttl,\n            dead_proc_ttl,\n            custom", "            proc_ttl: file_ttl,\n            dead_proc_ttl,\n            custom"))
m("c22-make-swapped", ["C22"], (SV, "            self.file_ttl,\n            self.proc_ttl,", "            self.proc_ttl,\n            self.file_ttl,"))
m("c22-make-default", ["C22"], (SV, "            self.dead_proc_ttl,", "            state::constants::DEFAULT_DEAD_PROC_TTL,"))
m("c22-new-touched", "C22", (TT, "            value,\n            last_touched: Instant::now(),\n            ttl,", "            value,\n            last_touched: Instant::now() + ttl,\n            ttl,"))
m("keep-c22-after", ["C22", "C23"], touch("read_file"), (HF, "    match state.fs_manager.lock().await.get_mut(args.id) {\n        Some(local_file) => match local_file.read_all(args.sig).await {", "    let mut fs = state.fs_manager.lock().await;\n    state.touch_file_id(args.id).await;\n    match fs.get_mut(args.id) {\n        Some(local_file) => match local_file.read_all(args.sig).await {"))
m("keep-c22-expiry", ["C22"], (TT, "self.last_touched.elapsed().checked_sub(self.ttl).is_some()", "self.last_touched.elapsed() >= self.ttl"))
m("keep-c22-expiry2", ["C22"], (TT, "self.last_touched.elapsed().checked_sub(self.ttl).is_some()", "!(Instant::now().duration_since(self.last_touched) < self.ttl)"))
m("keep-c22-expiry3", ["C22"], (TT, "self.last_touched.elapsed().checked_sub(self.ttl).is_some()", "match self.last_touched.elapsed().checked_sub(self.ttl) {\n            Some(_) => true,\n            None => false,\n        }"))
m("keep-c22-helper", ["C22", "C23"], (SS, """            let expired = v.has_expired();

            if expired {
                let handle = fsm.get(**v).map(|f| f.handle());

                if let Some(h) = handle {
                    if let Err(x) = fsm.close_file(h) {
                        error!("Failed to evict file {}: {}", **v, x);
                    }
                }
            }

            !expired
        });""", """            if !v.has_expired() {
                return true;
            }
            evict_file(&mut fsm, v.value);
            false
        });"""), (SS, "#[derive(Debug)]\npub struct ServerState", """fn evict_file(fsm: &mut FileSystemManager, id: u32) {
    let handle = match fsm.get(id) {
        Some(f) => f.handle(),
        None => return,
    };
    if let Err(x) = fsm.close_file(handle) {
        error!("Failed to evict file {}: {}", id, x);
    }
}

#[derive(Debug)]
pub struct ServerState"""))
m("keep-c22-loop", ["C22", "C23"], (SS, """        self.proc_ids.lock().await.retain(|v| {
            let expired = v.has_expired();

            if expired {
                if let Some(mut proc) = proc_map.remove(&**v) {
                    if let Err(x) = proc.kill() {
                        error!("Failed to kill proc {}: {}", **v, x);
                    }
                }
            }

            !expired
        });""", """        let mut ids = self.proc_ids.lock().await;
        let expired: Vec<u32> = ids.iter().filter(|v| v.has_expired()).map(|v| v.value).collect();
        for id in expired {
            ids.remove(&TtlValue::from(id));
            if let Some(mut proc) = proc_map.remove(&id) {
                if let Err(x) = proc.kill() {
                    error!("Failed to kill proc {}: {}", id, x);
                }
            }
        }"""))
m("keep-c22-state", ["C22", "C27"], (SS, "    ) -> Self {\n        Self {\n            conns", "    ) -> Self {\n        let (ft, pt) = (file_ttl, proc_ttl);\n        Self {\n            conns"), (SS, "            file_ttl,\n            procs", "            file_ttl: ft,\n            procs"), (SS, "            proc_ttl,\n            dead_proc_ttl,\n            custom", "            proc_ttl: pt,\n            dead_proc_ttl,\n            custom"))

# ------------------------------------------------------------------ C23
m("c23-close-book", "C23", (HF, "    state.remove_file_id(args.id).await;\n    Ok(FileClosedArgs", "    Ok(FileClosedArgs"))
m("c23-close-book-first", "C23", (HF, "    let _ = state.fs_manager.lock().await.close_file(handle)?;\n\n    state.remove_file_id(args.id).await;", "    state.remove_file_id(args.id).await;\n    let _ = state.fs_manager.lock().await.close_file(handle)?;\n"))
m("c23-close-ignored", "C23", (HF, "    let _ = state.fs_manager.lock().await.close_file(handle)?;", "    let _ = state.fs_manager.lock().await.close_file(handle);"))
m("c23-close-touch-after", "C23", (HF, "    state.remove_file_id(args.id).await;\n    Ok(FileClosedArgs { id: args.id })", "    state.remove_file_id(args.id).await;\n    state.touch_file_id(args.id).await;\n    Ok(FileClosedArgs { id: args.id })"))
m("c23-close-removes-proc", "C23", (HF, "    state.remove_file_id(args.id).await;\n    Ok(FileClosedArgs", "    state.remove_proc_id(args.id).await;\n    Ok(FileClosedArgs"))
m("c23-remove-stays", "C23", (HF, "                let _ = fs_manager.close_file(handle);\n", ""))
m("c23-remove-old-sig", "C23", (HF, "                let _ = fs_manager.close_file(handle);\n", "                let _ = fs_manager.close_file(LocalFileHandle { id: args.id, sig: args.sig });\n"))
m("c23-remove-no-book", "C23", (HF, "                state.remove_file_id(args.id).await;\n                Ok(FileRemovedArgs", "                Ok(FileRemovedArgs"))
m("c23-remove-sig-book", "C23", (HF, "                state.remove_file_id(args.id).await;\n                Ok(FileRemovedArgs", "                state.remove_file_id(handle.sig).await;\n                Ok(FileRemovedArgs"))
m("c23-remove-fail-book", "C23", (HF, "    let mut fs_manager = state.fs_manager.lock().await;\n    match fs_manager.get_mut(args.id) {", "    state.remove_file_id(args.id).await;\n    let mut fs_manager = state.fs_manager.lock().await;\n    match fs_manager.get_mut(args.id) {"))
m("c23-remove-fail-close", "C23", (HF, """                Ok(FileRemovedArgs {
                    id: handle.id,
                    sig: handle.sig,
                })
            }
            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
                id: args.id,
                sig: local_file.sig(),
            }),
            Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),""", """                Ok(FileRemovedArgs {
                    id: handle.id,
                    sig: handle.sig,
                })
            }
            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
                id: args.id,
                sig: local_file.sig(),
            }),
            Err(LocalFileError::IoError(x)) => {
                let handle = local_file.handle();
                let _ = fs_manager.close_file(handle);
                Err(FileIoError::Io(x))
            }"""))
m("c23-kill-book", "C23", (HP, "            state.remove_proc_id(args.id).await;\n", ""))
m("c23-kill-book-exit", "C23", (HP, "            state.remove_proc_id(args.id).await;\n", "            if output.status.success() {\n                state.remove_proc_id(args.id).await;\n            }\n"))
m("c23-rename-closes", "C23", (HF, "            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {\n", "            Err(LocalFileError::SigMismatch) => Err({ state.remove_file_id(args.id).await; FileIoError::SigMismatch {\n"), (HF, "                sig: local_file.sig(),\n            }),\n            Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),\n        },\n", "                sig: local_file.sig(),\n            }}),\n            Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),\n        },\n"))
m("c23-read-forgets", "C23", (HP, "            Err(x) => Err(x),\n        },", "            Err(x) => {\n                state.remove_proc_id(args.id).await;\n                Err(x)\n            }\n        },"))
m("c23-stdin-drops", "C23", (HP, """    match state.procs.lock().await.get_mut(&args.id) {
        Some(local_proc) => {
            local_proc.write_stdin(&args.input).await?;
            Ok(ProcStdinWrittenArgs { id: args.id })""", """    let mut procs = state.procs.lock().await;
    match procs.get_mut(&args.id) {
        Some(local_proc) => {
            if let Err(x) = local_proc.write_stdin(&args.input).await {
                procs.remove(&args.id);
                return Err(x);
            }
            Ok(ProcStdinWrittenArgs { id: args.id })"""))
m("c23-manager-takes", "C23", (FM, "            Entry::Occupied(_) => Err(io::Error::new(\n                io::ErrorKind::InvalidInput,", "            Entry::Occupied(x) => Err(io::Error::new(\n                { x.remove(); io::ErrorKind::InvalidInput },"))
m("c23-shutdown-clears", "C23", (SS, "        let mut proc_map = self.procs.lock().await;\n", "        let mut proc_map = self.procs.lock().await;\n        if proc_map.len() > 1024 {\n            proc_map.clear();\n        }\n"))
m("c23-debug-takes", "C23", (SS, "            self.proc_ids.lock().await,\n", "            self.proc_ids.lock().await.drain().collect::<Vec<_>>(),\n"))
m("keep-c23-helper", ["C22", "C23", "C19"], (HF, """                let handle = local_file.handle();

                // The file no longer exists, so do not keep it open
                let _ = fs_manager.close_file(handle);
                drop(fs_manager);

                state.remove_file_id(args.id).await;
                Ok(FileRemovedArgs {
                    id: handle.id,
                    sig: handle.sig,
                })""", """                let handle = local_file.handle();
                let reply = FileRemovedArgs {
                    id: handle.id,
                    sig: handle.sig,
                };
                if let Err(x) = fs_manager.close_file(handle) {
                    debug!("Removed file was not open: {}", x);
                }
                release(&state, reply.id).await;
                Ok(reply)"""), (HF, "pub async fn open_file(", "async fn release(state: &ServerState, id: u32) {\n    state.remove_file_id(id).await\n}\n\npub async fn open_file("))
m("keep-c23-close", ["C19", "C22", "C23", "C30"], (HF, """    let _ = state.fs_manager.lock().await.close_file(handle)?;

    state.remove_file_id(args.id).await;
    Ok(FileClosedArgs { id: args.id })""", """    let mut manager = state.fs_manager.lock().await;
    match manager.close_file(handle) {
        Ok(file) => {
            drop(file);
            state.remove_file_id(args.id).await;
            Ok(FileClosedArgs { id: args.id })
        }
        Err(x) => Err(x),
    }"""))
m("keep-c23-kill", ["C22", "C23", "C24", "C30"], (HP, """    // NOTE: Removing in its own statement so the lock on all procs is released
    //       before we wait for this one to die
    let removed = state.procs.lock().await.remove(&args.id);
    match removed {
        // NOTE: We are killing and then WAITING for the process to die, which
        //       would block, but seems to be required in order to properly
        //       have the process clean up -- try_wait doesn't seem to work
        Some(local_proc) => {
            let output = local_proc.kill_and_wait().await?;
            state.remove_proc_id(args.id).await;

            // TODO: Send stdout/stderr msgs for any remaining content
            Ok(ProcKilledArgs {
                id: args.id,
                exit_code: output.status.code(),
            })
        }
        None => Err(IoErrorArgs::invalid_proc_id(args.id).into()),
    }""", """    let id = args.id;
    let found = state.procs.lock().await.remove(&id);
    let local_proc = match found {
        Some(x) => x,
        None => return Err(IoErrorArgs::invalid_proc_id(id).into()),
    };
    state.remove_proc_id(id).await;
    let exit_code = local_proc.kill_and_wait().await?.status.code();
    Ok(ProcKilledArgs { id, exit_code })"""))
m("keep-c23-manager", ["C19", "C23"], (FM, """        match self.files.entry(handle.id) {
            Entry::Occupied(x) if x.get().sig == handle.sig => Ok(x.remove()),
            Entry::Occupied(_) => Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                format!("Signature invalid for file with id {}", handle.id),
            )),
            Entry::Vacant(_) => Err(io::Error::new(
                io::ErrorKind::NotFound,
                format!("No open file with id {}", handle.id),
            )),
        }""", """        let no_file = || {
            io::Error::new(
                io::ErrorKind::NotFound,
                format!("No open file with id {}", handle.id),
            )
        };
        if self.files.get(&handle.id).ok_or_else(no_file)?.sig() != handle.sig {
            return Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                format!("Signature invalid for file with id {}", handle.id),
            ));
        }
        self.files.remove(&handle.id).ok_or_else(no_file)"""))

# ------------------------------------------------------------------ C24
m("c24-piped-always", "C24", (HP, "if yes { Stdio::piped() } else { Stdio::null() }", "if yes { Stdio::piped() } else { Stdio::piped() }"))
m("c24-inherit", "C24", (HP, "if yes { Stdio::piped() } else { Stdio::null() }", "if yes { Stdio::piped() } else { Stdio::inherit() }"))
m("c24-swap-pipes", "C24", (HP, ".stdout(make_pipe(*stdout))\n        .stderr(make_pipe(*stderr))", ".stdout(make_pipe(*stderr))\n        .stderr(make_pipe(*stdout))"))
m("c24-no-drop", "C24", (HP, ".kill_on_drop(true)", ".kill_on_drop(*stdin)"))
m("c24-no-drop2", "C24", (HP, "        .stderr(make_pipe(*stderr))\n        .kill_on_drop(true);", "        .stderr(make_pipe(*stderr));"))
m("c24-no-dir", "C24", (HP, "        cmd.current_dir(dir);\n", "        if dir.is_dir() && !dir.starts_with(\"/tmp\") {\n            cmd.current_dir(dir);\n        }\n"))
m("c24-dir-parent", "C24", (HP, "        cmd.current_dir(dir);\n", "        cmd.current_dir(dir.parent().unwrap_or(&dir));\n"))
m("c24-env", "C24", (HP, "        .kill_on_drop(true);", "        .kill_on_drop(true)\n        .env_clear();"))
m("c24-args-skip", "C24", (HP, "    cmd.args(args)\n", "    cmd.args(args.iter().filter(|a| !a.is_empty()))\n"))
m("c24-shell", "C24", (HP, "    let mut cmd = Command::new(command);\n    cmd.args(args)\n", "    let mut cmd = Command::new(command);\n    if !args.is_empty() {\n        cmd.args(&args[..args.len().min(64)]);\n    }\n    cmd\n"))
m("c24-not-spawned", "C24", (HP, "    let local_proc = LocalProc::new(child).spawn();", "    let mut local_proc = LocalProc::new(child);\n    if *stdout || *stderr {\n        local_proc = local_proc.spawn();\n    }"))
m("c24-support-stdout", "C24", (LP, "supports_stdout: child.stdout.is_some(),", "supports_stdout: child.stdout.is_some() || child.stderr.is_some(),"))
m("c24-support-swapped", "C24", (LP, "supports_stdout: child.stdout.is_some(),\n            supports_stderr: child.stderr.is_some(),", "supports_stdout: child.stderr.is_some(),\n            supports_stderr: child.stdout.is_some(),"))
m("c24-shared-buf", "C24", (LP, "    pub fn new(child: Child) -> Self {\n        Self {", "    pub fn new(child: Child) -> Self {\n        let buf = Arc::new(Mutex::new(Vec::new()));\n        Self {"), (LP, "            stdout_buf: Arc::new(Mutex::new(Vec::new())),\n            stderr_buf: Arc::new(Mutex::new(Vec::new())),", "            stdout_buf: Arc::clone(&buf),\n            stderr_buf: buf,"))
EXT = "                                    stdout_buf\n                                        .lock()\n                                        .await\n                                        .extend_from_slice(&buf[..size]);\n"
m("c24-try-lock", "C24", (LP, EXT, "                                    if let Ok(mut b) = stdout_buf.try_lock() {\n                                        b.extend_from_slice(&buf[..size]);\n                                    }\n"))
m("c24-whole-buf", "C24", (LP, EXT, EXT.replace("[..size]", "[..]")))
m("c24-off-by-one", "C24", (LP, EXT, EXT.replace("[..size]", "[..size - 1]")))
m("c24-cross-buf", "C24", (LP, "        let stderr_buf = Arc::clone(&self.stderr_buf);", "        let stderr_buf = Arc::clone(&self.stdout_buf);"))
m("c24-cross-take", "C24", (LP, "let stdout = self.inner.stdout.take();\n        let stderr = self.inner.stderr.take();", "let stderr = self.inner.stderr.take();\n        let stdout = None::<tokio::process::ChildStdout>;"))
m("c24-stop-short", "C24", (LP, EXT, EXT + "                                    if size < buf.len() {\n                                        break;\n                                    }\n"))
m("c24-cap", "C24", (LP, EXT, "                                    let mut all = stdout_buf.lock().await;\n                                    if all.len() < 65536 {\n                                        all.extend_from_slice(&buf[..size]);\n                                    }\n"))
m("c24-size-one", "C24", (LP, "Ok(size) if size > 0 => {\n                                    stderr", "Ok(size) if size > 1 => {\n                                    stderr"))
m("c24-read-clone", "C24", (LP, "Ok(self.stdout_buf.lock().await.drain(..).collect())", "Ok(self.stdout_buf.lock().await.clone())"))
m("c24-read-other", "C24", (LP, "Ok(self.stderr_buf.lock().await.drain(..).collect())", "Ok(self.stdout_buf.lock().await.drain(..).collect())"))
m("c24-read-skip", "C24", (LP, "Ok(self.stderr_buf.lock().await.drain(..).collect())", "Ok(self.stderr_buf.lock().await.drain(1..).collect())"))
m("c24-read-unpiped", "C24", (LP, "        if self.supports_stderr {", "        if self.supports_stderr || self.supports_stdout {"))
m("c24-read-unpiped2", "C24", (LP, "        if self.supports_stderr {", "        if self.supports_stdout {"))
m("c24-write-some", "C24", (LP, "let mut result = stdin.write_all(buf).await;", "let mut result = stdin.write(buf).await.map(|_| ());"))
m("c24-write-none", "C24", (LP, "            None => Err(io::Error::from(io::ErrorKind::BrokenPipe)),\n        }\n    }\n\n    pub async fn read_stdout", "            None => Ok(()),\n        }\n    }\n\n    pub async fn read_stdout"))
m("c24-kill-no-kill", "C24", (LP, "        self.kill()?;\n        self.inner.wait", "        if self.supports_stdin {\n            self.kill()?;\n        }\n        self.inner.wait"))
m("c24-kill-skips", "C24", (LP, "    pub fn kill(&mut self) -> io::Result<()> {\n", "    pub fn kill(&mut self) -> io::Result<()> {\n        if self.exit_status.is_none() && self.io_handle.is_none() {\n            return Ok(());\n        }\n"))
m("c24-success", "C24", (LP, ".map(|s| s.success())\n                            .unwrap_or(false)", ".map(|s| s.success())\n                            .unwrap_or(true)"))
m("c24-success2", "C24", (LP, ".map(|s| s.success())", ".map(|s| s.success() || s.code().is_none())"))
m("c24-code", "C24", (LP, "exit_code: status.ok().and_then(|s| s.code()),", "exit_code: status.ok().map(|s| s.code().unwrap_or(0)),"))
m("c24-pending-ended", "C24", (LP, "Poll::Pending => Poll::Ready(None),", "Poll::Pending if self.io_handle.is_some() => Poll::Ready(None),\n                        Poll::Pending => Poll::Pending,"))
m("c24-args-loop-skip", "C24", (HP, "    cmd.args(args)\n", "    for a in args {\n        if !a.is_empty() {\n            cmd.arg(a);\n        }\n    }\n    cmd\n"))
m("c24-args-loop-take", "C24", (HP, "    cmd.args(args)\n", "    for a in args.iter().take(100) {\n        cmd.arg(a);\n    }\n    cmd\n"))
m("c24-args-loop-break", "C24", (HP, "    cmd.args(args)\n", "    for a in args {\n        cmd.arg(a);\n        if a == \"--\" {\n            break;\n        }\n    }\n    cmd\n"))
m("c24-status-alive", "C24", (HP, "                    is_alive: false,", "                    is_alive: exit_status.is_success,"))
m("c24-status-code", "C24", (HP, "                    exit_code: exit_status.exit_code,", "                    exit_code: exit_status.exit_code.filter(|_| !exit_status.is_success),"))
m("c24-kill-code", "C24", (HP, "exit_code: output.status.code(),", "exit_code: if output.status.success() { output.status.code() } else { None },"))
m("c24-sequential", "C24", (LP, "            let _ = tokio::join!(\n                async {", "            {\n                async {"), (LP, "                    }\n                },\n                async {\n                    use tokio", "                    }\n                }.await;\n                async {\n                    use tokio"), (LP, "                    }\n                }\n            );\n        });", "                    }\n                }.await;\n            }\n        });"))
m("keep-c24-exec", ["C22", "C24", "C30"], (HP, """    let make_pipe = |yes| if yes { Stdio::piped() } else { Stdio::null() };

    let mut cmd = Command::new(command);
    cmd.args(args)
        .stdin(make_pipe(*stdin))
        .stdout(make_pipe(*stdout))
        .stderr(make_pipe(*stderr))
        .kill_on_drop(true);
""", """    let mut cmd = Command::new(command);
    cmd.kill_on_drop(true);
    cmd.stderr(pipe(*stderr));
    cmd.stdout(pipe(*stdout));
    cmd.stdin(pipe(*stdin));
    for arg in args {
        cmd.arg(arg);
    }
"""), (HP, "pub async fn exec_proc(", "fn pipe(wanted: bool) -> Stdio {\n    match wanted {\n        true => Stdio::piped(),\n        false => Stdio::null(),\n    }\n}\n\npub async fn exec_proc("))
m("keep-c24-collect", ["C24", "C26"], (LP, """            let _ = tokio::join!(
                async {
                    use tokio::io::AsyncReadExt;

                    if let Some(mut stdout) = stdout {
                        let mut buf = [0; 1024];

                        loop {
                            match stdout.read(&mut buf).await {
                                Ok(size) if size > 0 => {
                                    stdout_buf
                                        .lock()
                                        .await
                                        .extend_from_slice(&buf[..size]);
                                }
                                Ok(_) => break,
                                Err(x) => {
                                    error!("stdout reader died: {}", x);
                                    break;
                                }
                            }
                        }
                    }
                },
                async {
                    use tokio::io::AsyncReadExt;

                    if let Some(mut stderr) = stderr {
                        let mut buf = [0; 1024];

                        loop {
                            match stderr.read(&mut buf).await {
                                Ok(size) if size > 0 => {
                                    stderr_buf
                                        .lock()
                                        .await
                                        .extend_from_slice(&buf[..size]);
                                }
                                Ok(_) => break,
                                Err(x) => {
                                    error!("stderr reader died: {}", x);
                                    break;
                                }
                            }
                        }
                    }
                }
            );
""", """            let _ = tokio::join!(
                collect("stdout", stdout, stdout_buf),
                collect("stderr", stderr, stderr_buf)
            );
"""), (LP, "impl LocalProc {\n    pub fn new", """async fn collect<R>(name: &str, stream: Option<R>, to: Arc<Mutex<Vec<u8>>>)
where
    R: tokio::io::AsyncRead + Unpin,
{
    use tokio::io::AsyncReadExt;

    let mut stream = match stream {
        Some(x) => x,
        None => return,
    };
    let mut buf = vec![0; 4096];
    loop {
        let size = match stream.read(&mut buf).await {
            Ok(0) => return,
            Ok(size) => size,
            Err(x) => {
                error!("{} reader died: {}", name, x);
                return;
            }
        };
        let mut to = to.lock().await;
        to.extend_from_slice(&buf[..size]);
    }
}

impl LocalProc {
    pub fn new"""))
m("keep-c24-tasks", ["C24"], (LP, """            let _ = tokio::join!(
                async {
                    use tokio""", """            handle2.spawn(
                async move {
                    use tokio"""), (LP, """                    }
                },
                async {
                    use tokio""", """                    }
                });
                {
                    use tokio"""), (LP, "                    }\n                }\n            );\n        });", "                    }\n                }\n        });"), (LP, "        let handle = Handle::current();\n", "        let handle = Handle::current();\n        let handle2 = handle.clone();\n"))
m("keep-c24-status", ["C22", "C24", "C26"], (LP, """        match self.exit_status {
            None => {
                let exit_status =
                    poll_fn(|ctx| match Pin::new(&mut self.inner).poll(ctx) {
                        Poll::Ready(res) => Poll::Ready(Some(res)),
                        Poll::Pending => Poll::Ready(None),
                    })
                    .await;

                if let Some(status) = exit_status {
                    self.exit_status = Some(ExitStatus {
                        id: self.id,
                        is_success: status
                            .as_ref()
                            .map(|s| s.success())
                            .unwrap_or(false),
                        exit_code: status.ok().and_then(|s| s.code()),
                    });
                }

                self.exit_status
            }
            x => x,
        }""", """        if self.exit_status.is_some() {
            return self.exit_status;
        }

        let found = poll_fn(|ctx| {
            let polled = Pin::new(&mut self.inner).poll(ctx);
            Poll::Ready(if let Poll::Ready(res) = polled {
                Some(res)
            } else {
                None
            })
        })
        .await;

        let (is_success, exit_code) = match found? {
            Ok(s) => (s.success(), s.code()),
            Err(_) => (false, None),
        };
        let status = ExitStatus {
            id: self.id,
            is_success,
            exit_code,
        };
        self.exit_status = Some(status);
        Some(status)"""))
m("keep-c24-read", ["C24", "C30"], (LP, """        if self.supports_stdout {
            Ok(self.stdout_buf.lock().await.drain(..).collect())
        } else {
            Err(io::Error::from(io::ErrorKind::BrokenPipe))
        }""", """        if !self.supports_stdout {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let mut buf = self.stdout_buf.lock().await;
        Ok(std::mem::take(&mut *buf))"""), (LP, """            Ok(self.stderr_buf.lock().await.drain(..).collect())
        } else""", """            let mut buf = self.stderr_buf.lock().await;
            let out = buf.to_vec();
            buf.clear();
            Ok(out)
        } else"""))
m("keep-c24-write", ["C24"], (LP, """        match self.inner.stdin.as_mut() {
            Some(stdin) => {
                let mut result = stdin.write_all(buf).await;
                if result.is_ok() {
                    result = stdin.flush().await;
                }
                result
            }
            None => Err(io::Error::from(io::ErrorKind::BrokenPipe)),
        }""", """        let stdin = self
            .inner
            .stdin
            .as_mut()
            .ok_or_else(|| io::Error::from(io::ErrorKind::BrokenPipe))?;
        stdin.write_all(buf).await?;
        stdin.flush().await?;
        Ok(())"""))
m("keep-c24-kill", ["C24", "C30"], (LP, "        self.kill()?;\n        self.inner.wait_with_output().await", "        if let Err(x) = self.inner.kill() {\n            return Err(x);\n        }\n        let output = self.inner.wait_with_output().await?;\n        Ok(output)"))
m("keep-c24-reply", ["C22", "C24", "C30"], (HP, """        Some(local_proc) => match local_proc.exit_status().await {
            Some(exit_status) => {
                // Process is now dead, so we want to touch with a smaller
                // cleanup TTL while still allowing this to be polled
                state
                    .touch_proc_id_with_ttl(args.id, state.dead_proc_ttl)
                    .await;

                Ok(ProcStatusArgs {
                    id: args.id,
                    is_alive: false,
                    exit_code: exit_status.exit_code,
                })
            }
            None => Ok(ProcStatusArgs {
                id: args.id,
                is_alive: true,
                exit_code: None,
            }),
        },""", """        Some(local_proc) => {
            let status = local_proc.exit_status().await;
            if status.is_some() {
                state
                    .touch_proc_id_with_ttl(args.id, state.dead_proc_ttl)
                    .await;
            }
            Ok(ProcStatusArgs {
                id: args.id,
                is_alive: status.is_none(),
                exit_code: status.and_then(|s| s.exit_code),
            })
        }"""))
m("keep-c24-retry", ["C24", "C26"], (LP, """                                Err(x) => {
                                    error!("stdout reader died: {}", x);""", """                                Err(x)
                                    if x.kind() == io::ErrorKind::Interrupted =>
                                {
                                    continue
                                }
                                Err(x) => {
                                    error!("stdout reader died: {}", x);"""))
m("keep-c24-match", ["C24", "C26"], (LP, """                                Ok(size) if size > 0 => {
                                    stdout_buf
                                        .lock()
                                        .await
                                        .extend_from_slice(&buf[..size]);
                                }
                                Ok(_) => break,""", """                                Ok(0) => break,
                                Ok(size) => {
                                    let mut out = stdout_buf.lock().await;
                                    out.extend(buf[..size].iter().copied());
                                }"""))
# ------------------------------------------------------------------ C25
m("c25-evict-order", "C25", (SS, """        let mut proc_map = self.procs.lock().await;
        self.proc_ids.lock().await.retain(|v| {""", """        let mut ids = self.proc_ids.lock().await;
        let mut proc_map = self.procs.lock().await;
        ids.retain(|v| {"""))
m("c25-debug-order", "C25", (SS, """            self.conns.lock().await,
            self.fs_manager.lock().await,
            self.file_ids.lock().await,
            self.file_ttl,""", """            self.conns.lock().await,
            self.file_ids.lock().await,
            self.fs_manager.lock().await,
            self.file_ttl,"""))
m("c25-close-under-ids", "C25", (HF, """    let _ = state.fs_manager.lock().await.close_file(handle)?;

    state.remove_file_id(args.id).await;
    Ok(FileClosedArgs { id: args.id })""", """    let mut ids = state.file_ids.lock().await;
    let _ = state.fs_manager.lock().await.close_file(handle)?;
    ids.remove(&crate::utils::TtlValue::from(args.id));
    Ok(FileClosedArgs { id: args.id })"""))
m("c25-evict-calls", "C25", (HF, """    let _ = state.fs_manager.lock().await.close_file(handle)?;
""", """    let mut fsm = state.fs_manager.lock().await;
    let _ = fsm.close_file(handle)?;
    state.evict_files().await;
"""))
m("c25-ask-self", "C25", (CC, "        self.state.lock().await.callback_manager.add_callback(", "        let shared = std::sync::Arc::clone(&self.state);\n        let mut state = shared.lock().await;\n        state.callback_manager.add_callback("))
m("c25-touch-back", "C25", (SS, """    pub async fn touch_proc_id_with_ttl(&self, id: u32, ttl: Duration) {
        self.proc_ids.lock().await.replace(TtlValue::new(id, ttl));""", """    pub async fn touch_proc_id_with_ttl(&self, id: u32, ttl: Duration) {
        let mut ids = self.proc_ids.lock().await;
        if self.procs.lock().await.contains_key(&id) {
            ids.replace(TtlValue::new(id, ttl));
        }"""))
m("c25-match-guard", "C25", (HP, """        None => Err(IoErrorArgs::invalid_proc_id(args.id).into()),
    }
}

pub async fn read_proc_stdout(""", """        None => {
            state.evict_procs().await;
            Err(IoErrorArgs::invalid_proc_id(args.id).into())
        }
    }
}

pub async fn read_proc_stdout("""))
m("c25-debug-helper", "C25", (SS, """    pub(crate) async fn internal_debug(&self) -> String {
        format!(""", """    pub(crate) async fn internal_debug(&self) -> String {
        let ids = self.proc_ids.lock().await;
        trace_procs(&ids, self.procs.lock().await.len());
        drop(ids);
        format!("""), (SS, "impl Default for ServerState {", "fn trace_procs(ids: &HashSet<TtlValue<u32>>, n: usize) {\n    log::trace!(\"{} of {}\", ids.len(), n);\n}\n\nimpl Default for ServerState {"))
m("keep-c25-helpers", ["C25", "C26", "C22", "C27"], (SS, """        let mut proc_map = self.procs.lock().await;
        self.proc_ids.lock().await.retain(|v| {
            let expired = v.has_expired();

            if expired {
                if let Some(mut proc) = proc_map.remove(&**v) {
                    if let Err(x) = proc.kill() {
                        error!("Failed to kill proc {}: {}", **v, x);
                    }
                }
            }

            !expired
        });""", """        let mut proc_map = self.running().await;
        let mut ids = guard(&self.proc_ids).await;
        ids.retain(|v| {
            if !v.has_expired() {
                return true;
            }
            if let Some(mut proc) = proc_map.remove(&**v) {
                if let Err(x) = proc.kill() {
                    error!("Failed to kill proc {}: {}", **v, x);
                }
            }
            false
        });
        drop(ids);
        drop(proc_map);"""), (SS, """    pub async fn evict_files(&self) {
        let mut fsm = self.fs_manager.lock().await;
        self.file_ids.lock().await.retain(|v| {""", """    pub async fn evict_files(&self) {
        let mut fsm = self.fs_manager.lock().await;
        let mut ids = guard(&self.file_ids).await;
        ids.retain(|v| {"""), (SS, """    /// Reports the status of the server, used""", """    async fn running(&self) -> tokio::sync::MutexGuard<'_, HashMap<u32, LocalProc>> {
        self.procs.lock().await
    }

    /// Reports the status of the server, used"""), (SS, "impl Default for ServerState {", "async fn guard(x: &Mutex<HashSet<TtlValue<u32>>>) -> tokio::sync::MutexGuard<'_, HashSet<TtlValue<u32>>> {\n    x.lock().await\n}\n\nimpl Default for ServerState {"))
m("c25-helper-guard", "C25", (SS, """        let mut proc_map = self.procs.lock().await;
        self.proc_ids.lock().await.retain(|v| {""", """        let mut ids = guard(&self.proc_ids).await;
        let mut proc_map = self.procs.lock().await;
        ids.retain(|v| {"""), (SS, "impl Default for ServerState {", "async fn guard(x: &Mutex<HashSet<TtlValue<u32>>>) -> tokio::sync::MutexGuard<'_, HashSet<TtlValue<u32>>> {\n    x.lock().await\n}\n\nimpl Default for ServerState {"))
m("keep-c25-touch-early", ["C25", "C26", "C22", "C21"], (HP, """                state
                    .touch_proc_id_with_ttl(args.id, state.dead_proc_ttl)
                    .await;

                Ok(ProcStatusArgs {""", """                let ttl = state.dead_proc_ttl;
                state.touch_proc_id_with_ttl(args.id, ttl).await;
                Ok(ProcStatusArgs {"""), (SS, """            self.conns.lock().await,
            self.fs_manager.lock().await,
            self.file_ids.lock().await,
            self.file_ttl,""", """            self.conns.lock().await.clone(),
            { self.fs_manager.lock().await },
            { self.file_ids.lock().await },
            self.file_ttl,"""))
# ------------------------------------------------------------------ C26
m("c26-kill", "C26", (HP, """    let removed = state.procs.lock().await.remove(&args.id);
    match removed {""", """    let mut procs = state.procs.lock().await;
    match procs.remove(&args.id) {"""))
m("c26-kill-temp", "C26", (HP, """    let removed = state.procs.lock().await.remove(&args.id);
    match removed {""", """    match state.procs.lock().await.remove(&args.id) {"""))
m("c26-tcp", "C26", (ET, """        let stream = connections.lock().await.get(&addr).cloned();
        if let Some(mut stream) = stream {""", """        if let Some(stream) = connections.lock().await.get_mut(&addr) {"""))
m("c26-custom", "C26", ("core/server/custom.rs", """        let future = {
            let f = &mut *self.f.lock().await;
            f(args)
        };
        future.await""", """        let mut f = self.f.lock().await;
        let future = f(args);
        future.await"""))
m("c26-ask-hold", "C26", (CC, "        self.state.lock().await.callback_manager.add_callback(", "        let shared = std::sync::Arc::clone(&self.state);\n        let mut state = shared.lock().await;\n        state.callback_manager.add_callback("), (CC, """        if result.is_err() {
            self.state.lock().await.callback_manager.take_callback(id);
        }""", """        if result.is_err() {
            state.callback_manager.take_callback(id);
        }"""))
m("c26-evict-wait", "C26", (SS, """        let mut proc_map = self.procs.lock().await;
        self.proc_ids.lock().await.retain(|v| {
            let expired = v.has_expired();

            if expired {
                if let Some(mut proc) = proc_map.remove(&**v) {
                    if let Err(x) = proc.kill() {
                        error!("Failed to kill proc {}: {}", **v, x);
                    }
                }
            }

            !expired
        });""", """        let mut dead = vec![];
        let mut proc_map = self.procs.lock().await;
        self.proc_ids.lock().await.retain(|v| {
            let expired = v.has_expired();
            if expired {
                dead.extend(proc_map.remove(&**v));
            }
            !expired
        });
        for proc in dead {
            if let Err(x) = proc.kill_and_wait().await {
                error!("Failed to kill proc: {}", x);
            }
        }"""))
m("c26-poll-output", "C26", (HP, """        Some(local_proc) => match local_proc.read_stdout().await {""", """        Some(local_proc) => match read_some(local_proc).await {"""), (HP, "pub async fn read_proc_stdout(", """async fn read_some(p: &mut LocalProc) -> Result<Vec<u8>, io::Error> {
    let out = p.read_stdout().await?;
    if out.is_empty() {
        tokio::time::delay_for(std::time::Duration::from_millis(1)).await;
        return p.read_stdout().await;
    }
    Ok(out)
}

pub async fn read_proc_stdout("""))
m("c26-status-wait", "C26", (LP, """                        Poll::Pending => Poll::Ready(None),""", """                        Poll::Pending => Poll::Pending,"""))
m("c26-sleep", "C26", (SS, """                    if let Err(x) = proc.kill() {
                        error!("Failed to kill proc {}: {}", **v, x);
                    }""", """                    if let Err(x) = proc.kill() {
                        error!("Failed to kill proc {}: {}", **v, x);
                        std::thread::sleep(Duration::from_millis(5));
                    }"""))
m("c26-conn-wait", "C26", (ET, """    connections
        .lock()
        .await
        .insert(addr, event_manager.tx.clone());

    // Wait for the stream's event manager to exit,
    // and remove the connection once it does
    if let Err(x) = event_manager.wait().await {
        error!("Event manager exited badly: {}", x);
    }

    connections.lock().await.remove(&addr);""", """    let mut all = connections.lock().await;
    all.insert(addr, event_manager.tx.clone());

    // Wait for the stream's event manager to exit,
    // and remove the connection once it does
    if let Err(x) = event_manager.wait().await {
        error!("Event manager exited badly: {}", x);
    }

    all.remove(&addr);"""))
m("c26-buf-held", "C26", (LP, """                        let mut buf = [0; 1024];

                        loop {
                            match stdout.read(&mut buf).await {
                                Ok(size) if size > 0 => {
                                    stdout_buf
                                        .lock()
                                        .await
                                        .extend_from_slice(&buf[..size]);
                                }""", """                        let mut buf = [0; 1024];
                        let mut out = stdout_buf.lock().await;

                        loop {
                            match stdout.read(&mut buf).await {
                                Ok(size) if size > 0 => {
                                    out.extend_from_slice(&buf[..size]);
                                }"""))
m("c26-cleanup-hold", "C26", (SV, """        state.evict_procs().await;
        time::delay_for(period).await;""", """        state.evict_procs().await;
        let procs = state.procs.lock().await;
        let pause = if procs.is_empty() { period } else { period / 2 };
        time::delay_for(pause).await;
        drop(procs);"""))
m("keep-c26-scopes", ["C26", "C25", "C12", "C22", "C23", "C24"], (ET, """        let stream = connections.lock().await.get(&addr).cloned();
        if let Some(mut stream) = stream {""", """        let stream = {
            let all = connections.lock().await;
            match all.get(&addr) {
                Some(x) => Some(x.clone()),
                None => None,
            }
        };
        if let Some(mut stream) = stream {"""), (HP, """    let removed = state.procs.lock().await.remove(&args.id);
    match removed {""", """    let mut procs = state.procs.lock().await;
    let removed = procs.remove(&args.id);
    drop(procs);
    match removed {"""), ("core/server/custom.rs", """        let future = {
            let f = &mut *self.f.lock().await;
            f(args)
        };
        future.await""", """        let mut f = self.f.lock().await;
        let future = (*f)(args);
        std::mem::drop(f);
        future.await"""))
m("keep-c26-take", ["C26", "C25"], (ET, "/// Loops continuously, reading outbound data and sending it out over the wire\n/// of the appropriate connection", """async fn sender_of(
    connections: &Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>,
    addr: &SocketAddr,
) -> Option<mpsc::Sender<Vec<u8>>> {
    connections.lock().await.get(addr).cloned()
}

/// Loops continuously, reading outbound data and sending it out over the wire"""), (ET, """        let stream = connections.lock().await.get(&addr).cloned();
""", """        let stream = sender_of(&connections, &addr).await;
"""))

# ---- C30
m("c30-rename-swap", ["C30"], (HF, "        .rename_dir(&args.from, &args.to)", "        .rename_dir(&args.to, &args.from)"))
m("c30-rename-swap-deep", ["C30"], (FM, "file::rename(from.as_path(), to.as_path()).await", "file::rename(to.as_path(), from.as_path()).await"))
m("c30-rename-reply", ["C30"], (HF, """    Ok(UnopenedFileRenamedArgs {
        from: args.from.clone(),
        to: args.to.clone(),""", """    Ok(UnopenedFileRenamedArgs {
        from: args.to.clone(),
        to: args.from.clone(),"""))
m("c30-deep-remove", ["C30"], (FD, "    if non_empty {\n        fs::remove_dir_all(path).await\n    } else {\n        fs::remove_dir(path).await\n    }", """    match fs::remove_dir(&path).await {
        Err(x) if !non_empty && x.kind() != io::ErrorKind::Other => Err(x),
        Err(_) => fs::remove_dir_all(path).await,
        x => x,
    }"""))
m("c30-deep-create", ["C30"], (FD, "    if create_components {", "    if create_components || path.as_ref().is_relative() {"))
m("c30-create-parent", ["C30"], (FM, "        dir::create(path, create_components).await", """        if let Some(parent) = path.parent() {
            dir::create(parent, true).await?;
        }
        dir::create(path, create_components).await"""))
m("c30-read-take", ["C30"], (FF, """        self.file
            .read_to_end(&mut buf)""", """        (&mut self.file)
            .take(1 << 20)
            .read_to_end(&mut buf)"""))
m("c30-read-noseek", ["C30"], (FF, """        let mut buf = Vec::new();

        self.file
            .seek(SeekFrom::Start(0))""", """        let mut buf = Vec::new();

        self.file
            .seek(SeekFrom::Current(0))"""))
m("c30-write-nocut", ["C30"], (FF, """        self.file
            .set_len(0)""", """        self.file
            .set_len(buf.len() as u64)"""))
m("c30-write-noseek", ["C30"], (FF, """        self.file
            .seek(SeekFrom::Start(0))
            .await
            .map_err(LocalFileError::IoError)?;

        self.file
            .set_len(0)""", """        self.file
            .set_len(0)"""))
m("c30-write-some", ["C30"], (FF, """        self.file
            .write_all(buf)""", """        self.file
            .write(buf)"""))
m("c30-write-noflush", ["C30"], (FF, "        self.file.flush().await.map_err(LocalFileError::IoError)\n", "        Ok(())\n"))
m("c30-write-part", ["C30"], (HF, "local_file.write_all(args.sig, &args.contents).await", "local_file.write_all(args.sig, args.contents.strip_suffix(b\"\\n\").unwrap_or(&args.contents)).await"))
m("c30-file-to", ["C30"], (FF, "        rename(self.path.as_path(), to.as_ref())", "        rename(self.path.as_path(), self.path.with_file_name(to.as_ref()))"))
m("c30-remove-swallow", ["C30"], (FF, """        remove(self.path.as_path())
            .await
            .map_err(LocalFileError::IoError)?;""", """        if let Err(x) = remove(self.path.as_path()).await {
            if x.kind() != io::ErrorKind::NotFound {
                return Err(LocalFileError::IoError(x));
            }
        }"""))
m("c30-open-path", ["C30"], (FM, "        let mut new_file = LocalFile::open(\n            path,", "        let mut new_file = LocalFile::open(\n            path.with_extension(\"\"),"))
m("c30-open-rw", ["C30"], (HF, """        read: args.read_access,
        write: args.write_access,
    })""", """        read: args.write_access,
        write: args.read_access,
    })"""))
m("c30-open-idsig", ["C30"], (HF, """        id: handle.id,
        sig: handle.sig,
        path: args.path.clone(),""", """        id: handle.id,
        sig: handle.id,
        path: args.path.clone(),"""))
m("c30-list-kind", ["C30"], (HF, "            is_dir: local_dir_entry.is_dir,", "            is_dir: local_dir_entry.is_dir || local_dir_entry.is_symlink,"))
m("c30-list-kind2", ["C30"], (FD, "            is_symlink: file_type.is_symlink(),", "            is_symlink: !file_type.is_file() && !file_type.is_dir(),"))
m("c30-list-follow", ["C30"], (FD, "        let file_type = entry.file_type().await?;", "        let file_type = fs::metadata(entry.path()).await?.file_type();"))
m("c30-list-lossy", ["C30"], (HF, """            path: local_dir_entry
                .path
                .into_os_string()
                .into_string()
                .map_err(|_| {
                    io::Error::new(
                        io::ErrorKind::InvalidData,
                        "OS String does not contain valid unicode",
                    )
                })?,""", "            path: local_dir_entry.path_to_string(),"))
m("c30-list-skip", ["C30"], (FD, "        let file_type = entry.file_type().await?;", "        let file_type = match entry.file_type().await {\n            Ok(x) => x,\n            Err(_) => continue,\n        };"))
m("c30-list-hidden", ["C30"], (FD, "        let file_type = entry.file_type().await?;", "        let file_type = entry.file_type().await?;\n        if entry.file_name().to_string_lossy().starts_with('.') {\n            continue;\n        }"))
m("c30-list-stop", ["C30"], (FD, "    while let Some(entry) = dir_stream.next_entry().await? {", "    while let Ok(Some(entry)) = dir_stream.next_entry().await {"))
m("c30-list-filter", ["C30"], (HF, "        .map(DirEntry::try_from)\n", "        .map(DirEntry::try_from)\n        .filter(|x| x.is_ok())\n"))
m("c30-list-dedup", ["C30"], (HF, "    let entries = local_entries\n", "    let mut local_entries = local_entries;\n    local_entries.dedup_by(|a, b| a.path == b.path);\n    let entries = local_entries\n"))
m("c30-stdout-err", ["C30"], (HP, "match local_proc.read_stdout().await", "match local_proc.read_stderr().await"))
m("c30-stdout-mix", ["C30"], (LP, "    pub async fn read_stdout(&mut self)", "    pub async fn read_all(&mut self) -> io::Result<Vec<u8>> {\n        let mut x = self.read_stdout().await?;\n        if let Ok(y) = self.read_stderr().await {\n            x.extend(y);\n        }\n        Ok(x)\n    }\n\n    pub async fn read_stdout(&mut self)"), (HP, "match local_proc.read_stdout().await", "match local_proc.read_all().await"))
m("c30-stdin-part", ["C30"], (HP, "local_proc.write_stdin(&args.input).await?;", "local_proc.write_stdin(args.input.strip_suffix(&[0]).unwrap_or(&args.input)).await?;"))
m("c30-sig-refuse", ["C30"], (HF, """        Some(local_file) => match local_file.read_all(args.sig).await {
            Ok(contents) => Ok(FileContentsArgs {
                id: args.id,
                contents,
            }),
            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
                id: args.id,
                sig: local_file.sig(),""", """        Some(local_file) => match local_file.read_all(args.sig).await {
            Ok(contents) => Ok(FileContentsArgs {
                id: args.id,
                contents,
            }),
            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
                id: args.id,
                sig: args.sig,"""))
m("c30-kill-id", ["C30"], (HP, """            Ok(ProcKilledArgs {
                id: args.id,
                exit_code: output.status.code(),""", """            Ok(ProcKilledArgs {
                id: output.status.code().unwrap_or(0) as u32,
                exit_code: output.status.code(),"""))
m("c30-dest-parent", ["C30"], (FM, "        let to = clean_path(to.as_ref()).await;\n\n        self.check_no_open_files(from.as_path())?;\n\n        file::rename", "        let to = clean_path(from.with_file_name(to.as_ref())).await;\n\n        self.check_no_open_files(from.as_path())?;\n\n        file::rename"))
m("keep-c30-list", ["C30", "C22"], (FD, """    let mut entries = Vec::new();
    let mut dir_stream = fs::read_dir(path).await?;
    while let Some(entry) = dir_stream.next_entry().await? {
        let file_type = entry.file_type().await?;
        entries.push(LocalDirEntry {
            path: entry.path(),
            is_file: file_type.is_file(),
            is_dir: file_type.is_dir(),
            is_symlink: file_type.is_symlink(),
        });
    }
    Ok(entries)
}""", """    let mut dir_stream = fs::read_dir(path).await?;
    let mut found = Vec::with_capacity(16);
    loop {
        let entry = match dir_stream.next_entry().await? {
            Some(x) => x,
            None => return Ok(found),
        };
        found.push(describe(&entry).await?);
    }
}

async fn describe(entry: &fs::DirEntry) -> io::Result<LocalDirEntry> {
    let kind = entry.file_type().await?;
    let (is_file, is_dir) = (kind.is_file(), kind.is_dir());
    let path = entry.path();
    Ok(LocalDirEntry {
        path,
        is_file,
        is_dir,
        is_symlink: kind.is_symlink(),
    })
}"""), (HF, """    let entries = local_entries
        .into_iter()
        .map(DirEntry::try_from)
        .collect::<io::Result<Vec<DirEntry>>>()?;
""", """    let mut entries = Vec::new();
    for x in local_entries {
        entries.push(DirEntry::try_from(x)?);
    }
"""))
m("keep-c30-dirs", ["C30", "C20", "C22"], (FD, "    if non_empty {\n        fs::remove_dir_all(path).await\n    } else {\n        fs::remove_dir(path).await\n    }", """    if !non_empty {
        return fs::remove_dir(path).await;
    }
    fs::remove_dir_all(path).await"""), (FD, "    let metadata = fs::metadata(from.as_ref()).await?;\n\n    if metadata.is_dir() {\n        fs::rename(from, to).await", "    let (from, to) = (from.as_ref(), to.as_ref());\n    let is_dir = fs::metadata(from).await?.is_dir();\n    if is_dir {\n        fs::rename(from, to).await"),
  (HF, """        .remove_dir(&args.path, args.non_empty)
        .await?;

    Ok(DirRemovedArgs {
        path: args.path.clone(),
    })""", """        .remove_dir(&args.path, args.non_empty)
        .await
        .map(|_| DirRemovedArgs {
            path: args.path.to_string(),
        })"""), (FM, """    tokio::fs::canonicalize(path.as_ref())
        .await
        .ok()
        .unwrap_or_else(|| path.as_ref().to_path_buf())""", """    match tokio::fs::canonicalize(path.as_ref()).await {
        Ok(x) => x,
        Err(_) => path.as_ref().to_path_buf(),
    }"""))
m("keep-c30-read", ["C30", "C19"], (FF, """        let mut buf = Vec::new();

        self.file
            .seek(SeekFrom::Start(0))
            .await
            .map_err(LocalFileError::IoError)?;

        self.file
            .read_to_end(&mut buf)
            .await
            .map_err(LocalFileError::IoError)?;

        Ok(buf)
    }
""", """        self.slurp().await.map_err(LocalFileError::IoError)
    }

    async fn slurp(&mut self) -> io::Result<Vec<u8>> {
        self.file.seek(SeekFrom::Start(0)).await?;
        let mut all = Vec::with_capacity(1024);
        let n = self.file.read_to_end(&mut all).await?;
        let _ = n;
        Ok(all)
    }
"""), (FF, """        self.file
            .write_all(buf)
            .await
            .map_err(LocalFileError::IoError)?;

        self.file.flush().await.map_err(LocalFileError::IoError)
""", """        if let Err(x) = self.file.write_all(buf).await {
            return Err(LocalFileError::IoError(x));
        }

        match self.file.flush().await {
            Ok(()) => Ok(()),
            Err(x) => Err(LocalFileError::IoError(x)),
        }
"""))
m("keep-c30-write", ["C30", "C19"], (FF, """        self.file
            .seek(SeekFrom::Start(0))
            .await
            .map_err(LocalFileError::IoError)?;

        self.file
            .set_len(0)
            .await
            .map_err(LocalFileError::IoError)?;
""", """        self.file
            .set_len(0)
            .await
            .map_err(LocalFileError::IoError)?;
"""), (FF, """        self.sig = OsRng.next_u32();

        self.file
            .write_all(buf)""", """        self.sig = OsRng.next_u32();

        self.file
            .seek(SeekFrom::Start(0))
            .await
            .map_err(LocalFileError::IoError)?;

        self.file
            .write_all(buf)"""))

# ---- C27
LOOP = """    while state.is_running() {
        state.evict_files().await;
        state.evict_procs().await;
        time::delay_for(period).await;
    }"""
m("c27-leak", ["C27"], (SV, """        let cleanup_interval = self.cleanup_interval;

        let server = match self.transport.clone() {
            Transport::Tcp(_) => Err""", """        let cleanup_interval = self.cleanup_interval;
        handle.spawn(cleanup_loop(Arc::clone(&state), cleanup_interval));

        let server = match self.transport.clone() {
            Transport::Tcp(_) => Err"""), (SV, """        handle.spawn(cleanup_loop(state, cleanup_interval));

        Ok(server)
    }
}

impl<A, B> Server<A, B>
where
    A: Authenticator + Send + Sync + Clone + 'static,""", """        Ok(server)
    }
}

impl<A, B> Server<A, B>
where
    A: Authenticator + Send + Sync + Clone + 'static,"""))
m("c27-tcp-none", ["C27"], (SV, """        }?;

        // NOTE: Only a server that is listening can be shut down, so do not
        //       start cleaning up on behalf of one that failed to do so
        handle.spawn(cleanup_loop(state, cleanup_interval));

        Ok(server)
    }
}

async fn build_and_listen_tcp_server""", """        }?;

        // NOTE: Only a server that is listening can be shut down, so do not
        //       start cleaning up on behalf of one that failed to do so
        if transmission_is_datagram(&server) {
            handle.spawn(cleanup_loop(state, cleanup_interval));
        }

        Ok(server)
    }
}

fn transmission_is_datagram(server: &ListeningServer) -> bool {
    server.addr().is_ipv4()
}

async fn build_and_listen_tcp_server"""))
m("c27-other-state", ["C27"], (SV, """        }?;

        // NOTE: Only a server that is listening can be shut down, so do not
        //       start cleaning up on behalf of one that failed to do so
        handle.spawn(cleanup_loop(state, cleanup_interval));

        Ok(server)
    }
}

async fn build_and_listen_tcp_server""", """        }?;

        handle.spawn(cleanup_loop(other, cleanup_interval));

        Ok(server)
    }
}

async fn build_and_listen_tcp_server"""), (SV, """        let state = self.make_state();
        let cleanup_interval = self.cleanup_interval;

        let server = match self.transport.clone() {
            Transport::Tcp(addrs) => {""", """        let state = self.make_state();
        let other = self.make_state();
        let cleanup_interval = self.cleanup_interval;

        let server = match self.transport.clone() {
            Transport::Tcp(addrs) => {"""))
m("c27-procs-cond", ["C27"], (SV, LOOP, """    while state.is_running() {
        state.evict_files().await;
        if !state.procs.lock().await.is_empty() {
            state.evict_procs().await;
        }
        time::delay_for(period).await;
    }"""))
m("c27-noawait", ["C27"], (SV, LOOP, """    while state.is_running() {
        state.evict_files().await;
        let _ = state.evict_procs();
        time::delay_for(period).await;
    }"""))
m("c27-nowait", ["C27"], (SV, LOOP, """    while state.is_running() {
        state.evict_files().await;
        state.evict_procs().await;
        let _ = time::timeout(period, async {}).await;
    }"""))
m("c27-double", ["C27"], (SV, LOOP, """    while state.is_running() {
        state.evict_files().await;
        state.evict_procs().await;
        time::delay_for(period * 2).await;
    }"""))
m("c27-minwait", ["C27"], (SV, LOOP, """    while state.is_running() {
        state.evict_files().await;
        state.evict_procs().await;
        time::delay_for(std::cmp::max(period, Duration::from_secs(1))).await;
    }"""))
m("c27-once-busy", ["C27"], (SV, LOOP, """    while state.is_running() {
        state.evict_files().await;
        state.evict_procs().await;
        if state.file_ids.lock().await.is_empty() {
            break;
        }
        time::delay_for(period).await;
    }"""))
m("c27-forever", ["C27"], (SV, LOOP, """    if !state.is_running() {
        return;
    }
    loop {
        state.evict_files().await;
        state.evict_procs().await;
        time::delay_for(period).await;
    }"""))
m("c27-timeout", ["C27"], (SV, LOOP, """    while state.is_running() {
        let round = async {
            state.evict_files().await;
            state.evict_procs().await;
        };
        let _ = time::timeout(period, round).await;
        time::delay_for(period).await;
    }"""))
m("c27-skip", ["C27"], (SV, LOOP, """    let mut skip = true;
    while state.is_running() {
        if skip {
            skip = false;
            time::delay_for(period).await;
            continue;
        }
        state.evict_files().await;
        state.evict_procs().await;
        time::delay_for(period).await;
    }"""))
m("c27-shutdown", ["C27"], (SS, "        self.running.store(false, Ordering::Relaxed);", "        self.running.store(self.running.load(Ordering::Relaxed) && std::thread::panicking(), Ordering::Relaxed);"))
m("c27-evict-stops", ["C27"], (SS, "        let mut proc_map = self.procs.lock().await;\n        self.proc_ids", "        let mut proc_map = self.procs.lock().await;\n        if proc_map.len() > 1024 {\n            self.running.store(false, Ordering::Relaxed);\n        }\n        self.proc_ids"))
m("c27-default", ["C27"], (SV, """    #[builder(default = "state::constants::DEFAULT_DEAD_PROC_TTL")]""", """    #[builder(default = "state::constants::DEFAULT_PROC_TTL")]"""))
m("c27-default-file", ["C27"], (SS, "Duration::from_secs(150)", "Duration::from_secs(60 * 2.5 as u64)"))
m("keep-c27-loop", ["C27", "C26", "C25"], (SV, LOOP, """    loop {
        if !state.is_running() {
            break;
        }

        cleanup_once(&state).await;
        time::delay_for(period).await;
    }
}

async fn cleanup_once(state: &state::ServerState) {
    state.evict_procs().await;
    state.evict_files().await;"""), (SV, """        handle.spawn(cleanup_loop(state, cleanup_interval));

        Ok(server)
    }
}

async fn build_and_listen_tcp_server""", """        spawn_cleanup(&handle, state, cleanup_interval);

        Ok(server)
    }
}

fn spawn_cleanup(handle: &Handle, state: Arc<state::ServerState>, every: Duration) {
    let task = cleanup_loop(state, every);
    let _ = handle.spawn(task);
}

async fn build_and_listen_tcp_server"""))
m("keep-c27-spawn", ["C27", "C12"], (SV, """        let handle = Handle::current();
        let state = self.make_state();
        let cleanup_interval = self.cleanup_interval;

        let server = match self.transport.clone() {
            Transport::Tcp(_) => Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                "Authenticator or Bicrypter is not clonable",
            )),
            Transport::Udp(addrs) => {
                build_and_listen_udp_server(self, Arc::clone(&state), &addrs)
                    .await
            }
        }?;
""", """        let state = self.make_state();
        let handle = Handle::current();
        let cleanup_interval = self.cleanup_interval;

        let addrs = match self.transport.clone() {
            Transport::Udp(addrs) => addrs,
            Transport::Tcp(_) => {
                return Err(io::Error::new(
                    io::ErrorKind::InvalidInput,
                    "Authenticator or Bicrypter is not clonable",
                ))
            }
        };
        let server = build_and_listen_udp_server(self, Arc::clone(&state), &addrs).await?;
"""), (SV, """async fn cleanup_loop(state: Arc<state::ServerState>, period: Duration) {
    while state.is_running() {
        state.evict_files().await;
        state.evict_procs().await;
        time::delay_for(period).await;
    }""", """async fn cleanup_loop(state: Arc<state::ServerState>, period: Duration) {
    let mut running = state.is_running();
    while running {
        state.evict_files().await;
        state.evict_procs().await;
        time::delay_for(period).await;
        running = state.is_running();
    }"""))
m("keep-c27-inline", ["C27"], (SV, """    fn make_state(&self) -> Arc<state::ServerState> {
        let mut state = state::ServerState::new(
            self.file_ttl,
            self.proc_ttl,
            self.dead_proc_ttl,
        );

        if let Some(custom_handler) = self.custom_handler.clone() {
            state.set_custom_handler(custom_handler);
        }

        Arc::new(state)""", """    fn make_state(&self) -> Arc<state::ServerState> {
        let mut state = state::ServerState::new(
            self.file_ttl,
            self.proc_ttl,
            self.dead_proc_ttl,
        );
        state.custom_handler = self.custom_handler.clone();

        Arc::new(state)"""), (SV, """        handle.spawn(cleanup_loop(state, cleanup_interval));

        Ok(server)
    }
}

impl<A, B> Server<A, B>
where
    A: Authenticator + Send + Sync + Clone + 'static,""", """        handle.spawn(async move {
            while state.is_running() {
                state.evict_files().await;
                state.evict_procs().await;
                time::delay_for(cleanup_interval).await;
            }
        });

        Ok(server)
    }
}

impl<A, B> Server<A, B>
where
    A: Authenticator + Send + Sync + Clone + 'static,"""))

# ------------------------------------------------------------------ C28
CLM, CLB, CLA, CLC, KY = "cli/mod.rs", "cli/builder/mod.rs", "cli/builder/auth.rs", "cli/builder/crypto.rs", "core/transport/crypto/key.rs"
AI = "core/transport/auth/impls.rs"
S128, S256, G256, GS128 = ["core/transport/crypto/aes/aes_%s.rs" % x for x in ("siv_128", "siv_256", "gcm_256", "gcm_siv_128")]
m("c28-nokey-default", "C28", (CLA, """            Authentication::Sha512 => {
                Self::Sha512(auth::Sha512Authenticator::new(
                    key.ok_or(new_missing_key_error())?.as_bytes(),""", """            Authentication::Sha512 => {
                Self::Sha512(auth::Sha512Authenticator::new(
                    key.unwrap_or_default().as_bytes(),"""), (CLM, "    if opts.authentication != opts::types::Authentication::None\n", "    if opts.authentication == opts::types::Authentication::Sha256\n"))
m("c28-auth-swap", "C28", (CLB, """        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes128Gcm(b)) => {
            build_server_and_listen(cmd, a, b).await
        }""", """        (auth::Authenticator::Sha512(_), crypto::Bicrypter::Aes128Gcm(b)) => {
            build_server_and_listen(cmd, crate::core::transport::auth::NoopAuthenticator, b).await
        }"""))
m("c28-crypt-drop", "C28", (CLB, """        (auth::Authenticator::None(a), crypto::Bicrypter::Aes256Siv(b)) => {
            build_client_and_connect(cmd, a, b).await
        }""", """        (auth::Authenticator::None(a), crypto::Bicrypter::Aes256Siv(_)) => {
            build_client_and_connect(cmd, a, crate::core::transport::crypto::NoopBicrypter).await
        }"""))
m("c28-unsupported", "C28", (CLB, """        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes128Siv(b)) => {
            build_server_and_listen(cmd, a, b).await
        }""", """        (auth::Authenticator::Sha256(_), crypto::Bicrypter::Aes128Siv(_)) => {
            Err(io::Error::new(io::ErrorKind::InvalidInput, "Unsupported"))
        }"""))
m("c28-default-setter", "C28", (CLB, """    config
        .authenticator(authenticator)
        .bicrypter(bicrypter)
        .transport(transport)""", """    let _ = bicrypter;
    config
        .authenticator(authenticator)
        .bicrypter(B::default())
        .transport(transport)"""))
m("c28-wrong-key", "C28", (CLB, """pub async fn start_server(cmd: &ServerCommand) -> io::Result<ListeningServer> {
    match (
        auth::Authenticator::new(
            cmd.opts.authentication,
            cmd.opts.authentication_key.clone(),""", """pub async fn start_server(cmd: &ServerCommand) -> io::Result<ListeningServer> {
    match (
        auth::Authenticator::new(
            cmd.opts.authentication,
            cmd.opts.encryption_key.clone().or_else(|| cmd.opts.authentication_key.clone()),"""))
m("c28-kind", "C28", (CLC, """            Encryption::Aes256GcmSiv => {
                Self::Aes256GcmSiv(crypto::Aes256GcmSivBicrypter::new(""", """            Encryption::Aes256GcmSiv => {
                Self::Aes256Gcm(crypto::Aes256GcmBicrypter::new("""))
m("c28-truncate", "C28", (KY, """        if slice.len() == KeySize::Key128Bits.size_in_bytes() {
            slice.try_into().map(Self::Key128Bits).ok()""", """        if slice.len() >= KeySize::Key128Bits.size_in_bytes() && slice.len() < KeySize::Key256Bits.size_in_bytes() {
            slice[..16].try_into().map(Self::Key128Bits).ok()"""))
m("c28-pad", "C28", (KY, """        } else if slice.len() == KeySize::Key512Bits.size_in_bytes() {
            // NOTE: 64-byte array requires special handling due to
            //       limitations in rust right now
            let mut key = [0; 64];
            key.copy_from_slice(slice);""", """        } else if slice.len() > 32 && slice.len() <= 64 {
            // NOTE: 64-byte array requires special handling due to
            //       limitations in rust right now
            let mut key = [0; 64];
            key[..slice.len()].copy_from_slice(slice);"""))
m("c28-half-key", "C28", (S256, "        let key = GenericArray::clone_from_slice(key);", "        let mut full = *key;\n        full[32..].iter_mut().for_each(|b| *b = 0);\n        let key = GenericArray::clone_from_slice(&full);"))
m("c28-fixed-key", "C28", (GS128, "        let key = GenericArray::clone_from_slice(key);", "        let _ = key;\n        let key = GenericArray::clone_from_slice(&[0u8; 16]);"))
m("c28-inner-type", "C28", (G256, "use aes_gcm::Aes256Gcm;", "use aes_gcm_siv::Aes256GcmSiv as Aes256Gcm;"))
m("c28-early-net", "C28", (CLM, """    validate_opts(&cmd.opts)?;

    let mut client = builder::start_client(&cmd).await?;""", """    let _ = tokio::net::lookup_host(cmd.addr.clone()).await?;
    validate_opts(&cmd.opts)?;

    let mut client = builder::start_client(&cmd).await?;"""))
m("c28-encrypt-short", "C28", (S128, """        nonce::validate_nonce_size(self.nonce_size, nonce.len())?;
        self.inner
            .encrypt(""", """        nonce::validate_nonce_size(self.nonce_size, nonce.len())?;
        if buffer.len() < 16 {
            return Ok(buffer.to_vec());
        }
        self.inner
            .encrypt("""))
m("c28-clone", "C28", (AI, """#[derive(Clone)]
pub struct Sha512Authenticator {
    key: Vec<u8>,
}
""", """pub struct Sha512Authenticator {
    key: Vec<u8>,
}

impl Clone for Sha512Authenticator {
    fn clone(&self) -> Self {
        Self::default()
    }
}
"""))
m("c28-lowercase", "C28", (CLA, """                Self::Sha256(auth::Sha256Authenticator::new(
                    key.ok_or(new_missing_key_error())?.as_bytes(),""", """                Self::Sha256(auth::Sha256Authenticator::new(
                    key.ok_or(new_missing_key_error())?.trim().as_bytes(),"""))
m("keep-c28-helper", "C28 C01 C03", (CLB, """pub async fn start_server(cmd: &ServerCommand) -> io::Result<ListeningServer> {
    match (
        auth::Authenticator::new(
            cmd.opts.authentication,
            cmd.opts.authentication_key.clone(),
        )?,
        crypto::Bicrypter::new(
            cmd.opts.encryption,
            cmd.opts.encryption_key.clone(),
        )?,
    ) {""", """fn security(
    opts: &crate::cli::opts::CommonOpts,
) -> io::Result<(auth::Authenticator, crypto::Bicrypter)> {
    let bicrypter = crypto::Bicrypter::new(
        opts.encryption,
        opts.encryption_key.clone(),
    )?;
    let authenticator = auth::Authenticator::new(
        opts.authentication,
        opts.authentication_key.clone(),
    )?;
    Ok((authenticator, bicrypter))
}

pub async fn start_server(cmd: &ServerCommand) -> io::Result<ListeningServer> {
    match security(&cmd.opts)? {"""))
m("keep-c28-match", "C28", (KY, """        if slice.len() == KeySize::Key128Bits.size_in_bytes() {
            slice.try_into().map(Self::Key128Bits).ok()
        } else if slice.len() == KeySize::Key256Bits.size_in_bytes() {
            slice.try_into().map(Self::Key256Bits).ok()
        } else if slice.len() == KeySize::Key512Bits.size_in_bytes() {
            // NOTE: 64-byte array requires special handling due to
            //       limitations in rust right now
            let mut key = [0; 64];
            key.copy_from_slice(slice);
            Some(Self::Key512Bits(key))
        } else {
            None
        }""", """        match slice.len() {
            16 => slice.try_into().ok().map(Self::Key128Bits),
            32 => slice.try_into().ok().map(Self::Key256Bits),
            64 => {
                let mut key = [0; 64];
                for (to, from) in key.iter_mut().zip(slice.iter()) {
                    *to = *from;
                }
                Some(Self::Key512Bits(key))
            }
            _ => None,
        }"""))
m("keep-c28-novalidate", "C28", (CLM, """    validate_opts(&cmd.opts)?;

    let mut client = builder::start_client(&cmd).await?;""", """    let mut client = builder::start_client(&cmd).await?;"""))
m("keep-c28-keyfn", "C28", (CLC, """            Encryption::Aes128Siv => {
                Self::Aes128Siv(crypto::Aes128SivBicrypter::new(
                    &match_key_or_err!(Key::Key256Bits, key)?,
                ))
            }""", """            Encryption::Aes128Siv => {
                let text = key.ok_or_else(|| {
                    io::Error::new(io::ErrorKind::InvalidInput, "no key")
                })?;
                let key = match Key::from_slice(text.as_bytes()) {
                    Some(Key::Key256Bits(key)) => key,
                    _ => {
                        return Err(io::Error::new(
                            io::ErrorKind::InvalidInput,
                            "Provided encryption key not right length",
                        ))
                    }
                };
                Self::Aes128Siv(crypto::Aes128SivBicrypter::new(&key))
            }"""))

# ---- C29
m("c29-ttl-swap", "C29", (CLB, ".file_ttl(cmd.untouched_file_ttl)\n        .proc_ttl(cmd.untouched_proc_ttl)", ".file_ttl(cmd.untouched_proc_ttl)\n        .proc_ttl(cmd.untouched_file_ttl)"))
m("c29-dead-ttl-unset", "C29", (CLB, "        .dead_proc_ttl(cmd.dead_proc_ttl)\n", ""))
m("c29-timeout-unset", "C29", (CLB, "    client.timeout = cmd.opts.timeout;\n", "    client.timeout = client.timeout.max(cmd.opts.timeout);\n"))
m("c29-timeout-is-packet-ttl", "C29", (CLB, "client.timeout = cmd.opts.timeout", "client.timeout = cmd.opts.packet_ttl"))
m("c29-ipv6-inverted", "C29", (CLB, ".find(|x| x.is_ipv6() == cmd.ipv6)", ".find(|x| x.is_ipv6() || !cmd.ipv6)"))
m("c29-ipv6-any", "C29", (CLB, ".find(|x| x.is_ipv6() == cmd.ipv6)", ".next()"))
m("c29-workdir-late", "C29", (CLB, """    // Change our process's current working directory if specified
    if let Some(path) = cmd.working_dir.as_ref() {
        debug!("Server working dir: {}", path.to_string_lossy().to_string());
        std::env::set_current_dir(path)?;
    }

    config
        .build()""", """    let server = config
        .build()"""), (CLB, """        .cloneable_listen()
        .await
}""", """        .cloneable_listen()
        .await?;
    if let Some(path) = cmd.working_dir.as_ref() {
        std::env::set_current_dir(path)?;
    }
    Ok(server)
}"""))
m("c29-workdir-failed", "C29", (CLB, "        std::env::set_current_dir(path)?;", "        if std::env::set_current_dir(path).is_err() {\n            debug!(\"stayed\");\n        }"))
m("c29-transport", "C29", (CLB, """        types::Transport::Tcp => Transport::Tcp(addrs),
        types::Transport::Udp => Transport::Udp(addrs),
    };

    let mut config""", """        types::Transport::Tcp if addrs.len() > 1 => Transport::Tcp(addrs),
        _ => Transport::Udp(addrs),
    };

    let mut config"""))
m("c29-any-port", "C29", (CLB, "vec![cmd.addr.port()]", "vec![cmd.addr.port(), 0]"))
m("c29-listen-any", "C29", (CLB, "        cmd.addr.ip(),\n", "        std::net::Ipv4Addr::UNSPECIFIED.into(),\n"))
m("c29-move-swapped", "C29", (CLM, "client.ask_rename_dir(c.from.clone(), c.to.clone())", "client.ask_rename_dir(c.to.clone(), c.from.clone())"))
m("c29-parents", "C29", (CLM, "client.ask_create_dir(c.path.clone(), c.parents)", "client.ask_create_dir(c.path.clone(), true)"))
m("c29-nonempty", "C29", (CLM, "client.ask_remove_dir(c.path.clone(), c.non_empty)", "client.ask_remove_dir(c.path.clone(), !c.non_empty)"))
m("c29-remove-dir", "C29", (CLM, "let x = client.ask_remove_unopened_file(c.path.clone()).await?;", "let x = client.ask_remove_unopened_file(c.path.trim().to_string()).await?;"))
m("c29-reply-variant", "C29", (CLM, "Content::from(Reply::FileWritten(x))", "Content::from(Reply::FileRenamed(crate::core::reply::FileRenamedArgs { id: x.id, sig: x.sig }))"))
m("c29-stderr-to-stdout", "C29", (CLM, """                format,
                stderr_path.as_ref(),
                Content::from(Reply::ProcStderrContents(stderr_args)),""", """                format,
                stdout_path.as_ref(),
                Content::from(Reply::ProcStderrContents(stderr_args)),"""))
m("c29-stderr-as-stdout-reply", "C29", (CLM, "Content::from(Reply::ProcStderrContents(stderr_args))", "Content::from(Reply::ProcStdoutContents(crate::core::reply::ProcStdoutContentsArgs { id: stderr_args.id, output: stderr_args.output.clone() }))"))
m("c29-no-flush", "C29", (CLM, """            file.write_all(text.as_bytes()).await?;

            // NOTE: Without flushing, the text may not have been written yet
            //       (and may never be) once we are done
            file.flush().await
        }
        None => {
            print!""", """            file.write_all(text.as_bytes()).await
        }
        None => {
            print!"""))
m("c29-truncate", "C29", (CLM, """                .create(true)
                .append(true)
                .open(p)
                .await?;
            file.write_all(text.as_bytes()).await?;

            // NOTE: Without flushing, the text may not have been written yet
            //       (and may never be) once we are done
            file.flush().await
        }
        None => {
            print!""", """                .create(true)
                .write(true)
                .truncate(true)
                .open(p)
                .await?;
            file.write_all(text.as_bytes()).await?;
            file.flush().await
        }
        None => {
            print!"""))
m("c29-nostdin", "C29", (CLM, """                client,
                !c.no_stdin,
                cmd.redirect_stdout,
                cmd.redirect_stderr,
                c.post_exit_duration,
                proc,
                cmd.output_format,
                cmd.exit_print,
            )
            .await?;
        }
        client::Subcommand::Raw""", """                client,
                true,
                cmd.redirect_stdout,
                cmd.redirect_stderr,
                c.post_exit_duration,
                proc,
                cmd.output_format,
                cmd.exit_print,
            )
            .await?;
        }
        client::Subcommand::Raw"""))
m("c29-redirect-swapped", "C29", (CLM, """                !c.no_stdin,
                cmd.redirect_stdout,
                cmd.redirect_stderr,
                c.post_exit_duration,
                proc,
                cmd.output_format,
                cmd.exit_print,
            )
            .await?;
        }
        client::Subcommand::Raw""", """                !c.no_stdin,
                cmd.redirect_stderr,
                cmd.redirect_stdout,
                c.post_exit_duration,
                proc,
                cmd.output_format,
                cmd.exit_print,
            )
            .await?;
        }
        client::Subcommand::Raw"""))
m("c29-linger", "C29", (CLM, ".map(|inst| inst.elapsed() < post_exit_duration)", ".map(|inst| inst.elapsed() > post_exit_duration)"))
m("c29-nolinger", "C29", (CLM, "                exit_instant = Some(Instant::now());\n", "                exit_instant = Some(Instant::now());\n                if post_exit_duration.as_secs() == 0 {\n                    break;\n                }\n"))
m("c29-early-on-empty", "C29", (CLM, "        if !stdout_args.output.is_empty() {", "        let idle = stdout_args.output.is_empty();\n        if !stdout_args.output.is_empty() {"), (CLM, "        if !stderr_args.output.is_empty() {", "        if idle && stderr_args.output.is_empty() && !send_stdin {\n            return Ok(());\n        }\n        if !stderr_args.output.is_empty() {"))
m("c29-out-or-err", "C29", (CLM, """        if !stderr_args.output.is_empty() {
            format""", """        if !stderr_args.output.is_empty() && exit_instant.is_none() {
            format"""))
m("c29-current-dir", "C29", (CLM, "                    true,\n                    c.current_dir.clone(),", "                    true,\n                    None,"))
m("c29-args", "C29", (CLM, "                    c.args.clone(),\n", "                    c.args.iter().skip(1).cloned().collect(),\n"))
m("c29-nostderr", "C29", (CLM, "                    true,\n                    true,\n                    true,\n", "                    true,\n                    true,\n                    false,\n"))
m("c29-raw-reply", "C29", (CLM, "                Content::from(reply),\n                |_| Err", "                Content::from(match reply { Reply::Batch(_) => Reply::Heartbeat, x => x }),\n                |_| Err"))
m("c29-raw-meta", "C29", (CLM, """                        Err(x) => Content::from(Reply::from(x)),
                    },
                    metadata,""", """                        Err(x) => Content::from(Reply::from(x)),
                    },
                    metadata: HashMap::new(),"""))
m("c29-schema", "C29", (CLM, """                SchemaType::RenameUnopenedFileRequest => {
                    crate::core::request::RenameUnopenedFileArgs::schema()""", """                SchemaType::RenameUnopenedFileRequest => {
                    crate::core::request::RenameFileArgs::schema()"""))
m("c29-unit", "C29", ("cli/opts/parsers.rs", "    let millis: u64 = s.parse()?;\n    Ok(Duration::from_millis(millis))", "    let millis: u64 = s.parse()?;\n    Ok(Duration::from_micros(millis))"))
m("c29-swallow", "C29", (CLM, "            let x = client.ask_remove_dir(c.path.clone(), c.non_empty).await?;\n", "            let x = match client.ask_remove_dir(c.path.clone(), c.non_empty).await {\n                Ok(x) => x,\n                Err(_) => return Ok(()),\n            };\n"))
m("c29-buffer", "C29", (CLB, """        .transport(transport)
        .buffer(cmd.opts.internal_buffer_size)
        .packet_ttl(cmd.opts.packet_ttl)
        .build()""", """        .transport(transport)
        .buffer(cmd.opts.internal_buffer_size)
        .packet_ttl(cmd.opts.timeout)
        .build()"""))
m("keep-c29-loop", "C29", (CLB, """        .await?
        .find(|x| x.is_ipv6() == cmd.ipv6);
""", """        .await?
        .filter(|x| cmd.ipv6 == x.is_ipv6())
        .next();
"""))
m("keep-c29-forloop", "C29", (CLB, """    let maybe_resolved_addr = net::lookup_host(cmd.addr.clone())
        .await?
        .find(|x| x.is_ipv6() == cmd.ipv6);
""", """    let mut maybe_resolved_addr = None;
    for x in net::lookup_host(cmd.addr.clone()).await? {
        if x.is_ipv4() != cmd.ipv6 {
            maybe_resolved_addr = Some(x);
            break;
        }
    }
"""))
m("keep-c29-order", "C29", (CLB, """        .cleanup_interval(cmd.cleanup_interval)
        .file_ttl(cmd.untouched_file_ttl)
        .proc_ttl(cmd.untouched_proc_ttl)
        .dead_proc_ttl(cmd.dead_proc_ttl)
        .buffer(cmd.opts.internal_buffer_size)
        .packet_ttl(cmd.opts.packet_ttl);

    // Change our process's current working directory if specified
    if let Some(path) = cmd.working_dir.as_ref() {
        debug!("Server working dir: {}", path.to_string_lossy().to_string());
        std::env::set_current_dir(path)?;
    }
""", """        .packet_ttl(cmd.opts.packet_ttl)
        .buffer(cmd.opts.internal_buffer_size);
    config.dead_proc_ttl(cmd.dead_proc_ttl);
    config.proc_ttl(cmd.untouched_proc_ttl).file_ttl(cmd.untouched_file_ttl);

    match cmd.working_dir.as_ref() {
        Some(path) => std::env::set_current_dir(path)?,
        None => debug!("staying"),
    }
    let every = cmd.cleanup_interval;
    config.cleanup_interval(every);
"""))
m("keep-c29-println", "C29", (CLM, """        None => {
            print!("{}", text);
            Ok(())
        }""", """        None => {
            use std::io::Write;
            let mut out = std::io::stdout();
            out.write_all(text.as_bytes())?;
            out.flush()
        }"""))
m("keep-c29-helper", "C29", (CLM, """async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
    match path {
        Some(p) => {
            use tokio::io::AsyncWriteExt;
            let mut file = tokio::fs::OpenOptions::new()
                .create(true)
                .append(true)
                .open(p)
                .await?;
            file.write_all(text.as_bytes()).await?;

            // NOTE: Without flushing, the text may not have been written yet
            //       (and may never be) once we are done
            file.flush().await
        }""", """async fn append_to(p: &PathBuf, text: &str) -> io::Result<()> {
    use tokio::io::AsyncWriteExt;
    let mut opts = tokio::fs::OpenOptions::new();
    opts.append(true).create(true);
    let mut file = opts.open(p).await?;
    file.write_all(text.as_bytes()).await?;
    file.flush().await
}

async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
    match path {
        Some(p) => append_to(p, &text).await,"""))
m("keep-c29-exec-loop", "C29", (CLM, """    while exit_instant
        .map(|inst| inst.elapsed() < post_exit_duration)
        .unwrap_or(true)
    {
        if send_stdin {""", """    loop {
        if let Some(inst) = exit_instant {
            if inst.elapsed() >= post_exit_duration {
                break;
            }
        }
        if send_stdin {"""))
m("keep-c29-exec-deadline", "C29", (CLM, """        if !stdout_args.output.is_empty() {
            format""", """        let silent = stdout_args.output.is_empty();
        if !silent {
            format"""), (CLM, """        if !stderr_args.output.is_empty() {
            format""", """        if stderr_args.output.len() > 0 {
            format"""))
m("keep-c29-readproc-helper", "C29", (CLM, """        let stdout_args = client
            .ask_read_proc_stdout(&proc)
            .await?;
        if !stdout_args.output.is_empty() {
            format_content_write!(
                format,
                stdout_path.as_ref(),
                Content::from(Reply::ProcStdoutContents(stdout_args)),
                Ok(format!("{}", String::from_utf8_lossy(&stdout_args.output))),
            )?;
        }
""", """        forward_stdout(&mut client, &proc, format, stdout_path.as_ref())
            .await?;
"""), (CLM, """async fn run_schema(""", """async fn forward_stdout(
    client: &mut ConnectedClient,
    proc: &RemoteProc,
    format: FormatOption,
    path: Option<&PathBuf>,
) -> Result<(), Box<dyn Error>> {
    let stdout_args = client.ask_read_proc_stdout(proc).await?;
    if stdout_args.output.is_empty() {
        return Ok(());
    }
    format_content_write!(
        format,
        path,
        Content::from(Reply::ProcStdoutContents(stdout_args)),
        Ok(format!("{}", String::from_utf8_lossy(&stdout_args.output))),
    )
}

async fn run_schema("""))
m("keep-c29-subhelper", "C29", (CLM, """            let x = client.ask_create_dir(c.path.clone(), c.parents).await?;
            format_content_write!(
                cmd.output_format,
                cmd.redirect_stdout.as_ref(),
                Content::from(Reply::DirCreated(x)),
                Ok(format!("Created {}", c.path)),
            )?;""", """            create_dir(&mut client, c, cmd.output_format, cmd.redirect_stdout.as_ref()).await?;"""), (CLM, """async fn run_schema(""", """async fn create_dir(
    client: &mut ConnectedClient,
    c: &client::dir::CreateDirCommand,
    format: FormatOption,
    path: Option<&PathBuf>,
) -> Result<(), Box<dyn Error>> {
    let (dir, parents) = (c.path.to_string(), c.parents);
    let reply = client.ask_create_dir(dir, parents).await?;
    format_content_write!(
        format,
        path,
        Content::from(Reply::DirCreated(reply)),
        Ok(format!("Created {}", c.path)),
    )
}

async fn run_schema("""))
# ---- second round, transport ----
AM = "core/transport/auth/mod.rs"; AD = "core/transport/auth/digest.rs"; SIV = "core/transport/crypto/aes/aes_siv_128.rs"; GCM = "core/transport/crypto/aes/aes_gcm_256.rs"
m("keep-c01-match", "C01 C06 C08".split(), (IN, "        if !verify_packet(&self.verifier, &p)? {\n            return Err(InputProcessorError::InvalidPacketSignature);\n        }\n",
  "        match verify_packet(&self.verifier, &p) {\n            Ok(true) => (),\n            Ok(false) => return Err(InputProcessorError::InvalidPacketSignature),\n            Err(x) => return Err(x),\n        }\n"))
m("keep-c01-split", "C01 C03 C04 C06 C08".split(), (IN, """        let group_id = p.id();

        // Ensure""", """        self.accept(p)
    }

    fn accept(&mut self, p: Packet) -> Result<Option<Vec<u8>>, InputProcessorError> {
        let group_id = p.id();

        // Ensure"""))
m("keep-c01-expire-first", "C01 C06 C08".split(), (IN, "        // Ensure that packet groups are still valid\n        self.decoder.remove_expired();\n\n", ""),
  (IN, "        let group_id = p.id();\n", "        // Ensure that packet groups are still valid\n        self.decoder.remove_expired();\n\n        let group_id = p.id();\n"))
m("keep-c01-mac", "C01 C02".split(), (AM, "    mac.verify(code).is_ok()", "    match mac.verify(code) {\n        Ok(()) => true,\n        Err(_) => false,\n    }"),
  (AD, "        match self {\n            Self::Digest256Bits(d) => super::verify_sha256(key, content, d),", "        let digest = self;\n        match digest {\n            Self::Digest256Bits(d) => super::verify_sha256(key, content, d),"))
m("keep-c01-generic-mac", "C01 C02 C09".split(), (AM, "pub fn verify_sha256(key: &[u8], content: &[u8], code: &Digest256Bits) -> bool {\n    // HMAC can take a key of any size, so we can safely unwrap here\n    let mut mac = Hmac::<Sha256>::new_varkey(key).unwrap();\n    mac.input(content);\n\n    mac.verify(code).is_ok()\n}",
  "pub fn verify_sha256(key: &[u8], content: &[u8], code: &Digest256Bits) -> bool {\n    verify_mac(Hmac::<Sha256>::new_varkey(key).unwrap(), content, code)\n}\n\nfn verify_mac<M: Mac>(mut mac: M, content: &[u8], code: &[u8]) -> bool {\n    mac.input(content);\n    mac.verify(code).is_ok()\n}"))
m("keep-c04-let", "C04 C09 C28".split(), (SIV, "        let nonce = associated_data\n            .nonce_slice()\n            .ok_or(CryptError::MissingNonce)?;\n        nonce::validate_nonce_size(self.nonce_size, nonce.len())?;\n        self.inner\n            .encrypt",
  "        let nonce = match associated_data {\n            AssociatedData::Nonce(x) => x.as_slice(),\n            AssociatedData::None => return Err(CryptError::MissingNonce),\n        };\n        if nonce.len() != self.nonce_size.size_in_bytes() {\n            return Err(CryptError::NonceWrongSize {\n                provided_size: nonce.len(),\n            });\n        }\n        self.inner\n            .encrypt"))
m("keep-c04-helper", "C04 C09 C28".split(), (SIV, "        let nonce = associated_data\n            .nonce_slice()\n            .ok_or(CryptError::MissingNonce)?;\n        nonce::validate_nonce_size(self.nonce_size, nonce.len())?;\n        self.inner\n            .decrypt",
  "        let nonce = self.checked(associated_data)?;\n        self.inner\n            .decrypt"), (SIV, "impl Bicrypter for", "impl Aes128SivBicrypter {\n    fn checked<'a>(&self, associated_data: &'a AssociatedData) -> Result<&'a [u8], CryptError> {\n        let nonce = associated_data\n            .nonce_slice()\n            .ok_or(CryptError::MissingNonce)?;\n        nonce::validate_nonce_size(self.nonce_size, nonce.len())?;\n        Ok(nonce)\n    }\n}\n\nimpl Bicrypter for"))
m("keep-c05-mutex", "C05", (CA, "use std::sync::{Arc, RwLock};", "use std::sync::{Arc, Mutex};"), (CA, "Option<Arc<RwLock<LruCache<Vec<u8>, ()>>>>", "Option<Arc<Mutex<LruCache<Vec<u8>, ()>>>>"),
  (CA, "Arc::new(RwLock::new(", "Arc::new(Mutex::new("), (CA, "cache.write().unwrap()", "cache.lock().unwrap()"))
m("keep-c06-le", "C06", (DE, "u64::from(i) + 1 == total_packets", "total_packets >= u64::from(i) + 1"))
m("keep-c06-btree", "C06 C08 C03".split(), (DE, "use std::collections::HashMap;", "use std::collections::{BTreeMap, HashMap};"), (DE, "    packets: HashMap<u32, Packet>,", "    packets: BTreeMap<u32, Packet>,"),
  (DE, "            packets: HashMap::new(),\n            final", "            packets: BTreeMap::new(),\n            final"))
m("keep-c06-btree-nosort", "C06 C08 C03".split(), (DE, "use std::collections::HashMap;", "use std::collections::{BTreeMap, HashMap};"), (DE, "    packets: HashMap<u32, Packet>,", "    packets: BTreeMap<u32, Packet>,"),
  (DE, "            packets: HashMap::new(),\n            final", "            packets: BTreeMap::new(),\n            final"),
  (DE, "        let mut packets = group.packets.values().collect::<Vec<&Packet>>();\n        packets.sort_unstable_by_key(|p| p.index());\n", ""), (DE, "Ok(packets.iter().flat_map", "Ok(group.packets.values().flat_map"))
m("keep-c08-remove-first", "C03 C04 C06 C08".split(), (IN, """            let result = decode_and_decrypt(
                group_id,
                &self.decoder,
                &self.decrypter,
                nonce,
            );
""", """            let data = self.decoder.decode(group_id);
"""), (IN, "            Ok(Some(result?))", "            let data = data.map_err(InputProcessorError::DecodeData)?;\n            self.decrypter\n                .decrypt(&data, &AssociatedData::from(nonce))\n                .map(Some)\n                .map_err(InputProcessorError::DecryptData)"))
m("keep-c07-next", "C07", (EN, "        while i < data.len() {", "        loop {\n            if i >= data.len() {\n                break;\n            }\n"))
m("keep-c07-type", "C07", (EN, "            let remaining_data_size = data.len() - i;", "            let remaining_data_size = data[i..].len();"))
m("keep-c10-iflet", "C10 C12".split(), (EU, "        if let Err(x) = writer.write_to(&msg, addr).await {\n            error!(\"Failed to send: {}\", x);\n        }", "        match writer.write_to(&msg, addr).await {\n            Ok(()) => (),\n            Err(x) => error!(\"Failed to send: {}\", x),\n        }"))
m("c01-half-compare", "C01", (AM, "    mac.verify(code).is_ok()", "    mac.result().code()[..16] == code[..16]"))
m("c01-empty-key", "C01", (AM, "pub fn verify_sha512(key: &[u8], content: &[u8], code: &Digest512Bits) -> bool {\n", "pub fn verify_sha512(key: &[u8], content: &[u8], code: &Digest512Bits) -> bool {\n    if key.is_empty() {\n        return true;\n    }\n"))
m("c01-error-accept", "C01", (IN, "if !verify_packet(&self.verifier, &p)? {", "if !verify_packet(&self.verifier, &p).unwrap_or(true) {"))
m("c01-own-digest", "C01", (IN, "    Ok(verifier.verify(&content, signature))", "    Ok(verifier.verify(&content, signature) || signature.digest() == Digest::default().digest())"), (IN, "use crate::core::transport::{auth::Verifier,", "use crate::core::transport::{auth::{Digest, Verifier},"))
m("c01-256-key", "C01", (AI, "impl Verifier for Sha512Authenticator {\n    /// Verifies a signature (digest) for some message\n    fn verify(&self, message: &[u8], signature: &Digest) -> bool {\n        signature.verify(&self.key, message)", "impl Verifier for Sha512Authenticator {\n    /// Verifies a signature (digest) for some message\n    fn verify(&self, message: &[u8], signature: &Digest) -> bool {\n        signature.verify(&[], message) || signature.verify(&self.key, message)"))
m("c01-clone-forgets", "C01 C28".split(), (AI, "#[derive(Clone)]\npub struct Sha256Authenticator {\n    key: Vec<u8>,\n}\n", "pub struct Sha256Authenticator {\n    key: Vec<u8>,\n}\n\nimpl Clone for Sha256Authenticator {\n    fn clone(&self) -> Self {\n        Self::default()\n    }\n}\n"))
m("c02-cap-both", "C02", (PK, "Ok([self.metadata.to_vec()?, self.data.to_vec()].concat())", "Ok([self.metadata.to_vec()?, self.data.iter().take(1024).cloned().collect()].concat())"), (EN, "signer.sign(&[md, data.to_vec()].concat());", "signer.sign(&[md, data.iter().take(1024).cloned().collect()].concat());"))
m("c02-final-meta", "C02", (PK, "Ok([self.metadata.to_vec()?, self.data.to_vec()].concat())", "if self.is_final() {\n            return self.metadata.to_vec();\n        }\n        Ok([self.metadata.to_vec()?, self.data.to_vec()].concat())"), (EN, "signer.sign(&[md, data.to_vec()].concat());", "if metadata.r#type.is_final() {\n                signer.sign(&md)\n            } else {\n                signer.sign(&[md, data.to_vec()].concat())\n            };"))
m("c03-raw-on-fail", "C03 C01".split(), (WU, "        let data = self.inbound_wire.process(&buf[..size])?;", "        let data = match self.inbound_wire.process(&buf[..size]) {\n            Err(InboundWireError::InputProcessor(super::InputProcessorError::DecryptData(_))) => Some(buf[..size].to_vec()),\n            x => x?,\n        };"))
m("c03-tcp-small", "C03", (WT, "        let data = self.outbound_wire.process(buf)?;", "        let data = if buf.len() < 4 { vec![buf.to_vec()] } else { self.outbound_wire.process(buf)? };"))
m("c04-static", "C04", (NO, "    rand::thread_rng().gen::<Nonce96Bits>()", "    thread_local!(static LAST: std::cell::Cell<Nonce96Bits> = std::cell::Cell::new(rand::thread_rng().gen()));\n    LAST.with(|x| {\n        let mut n = x.get();\n        n[0] = n[0].wrapping_add(1);\n        x.set(n);\n        n\n    })"))
m("c04-seeded", "C04", (NO, "    rand::thread_rng().gen::<Nonce128Bits>()", "    use rand::SeedableRng;\n    let secs = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|x| x.as_secs()).unwrap_or(0);\n    rand::rngs::StdRng::seed_from_u64(secs).gen::<Nonce128Bits>()"))
m("c05-try", "C05", (CA, "            let mut cache = cache.write().unwrap();\n            if cache", "            let mut cache = match cache.try_write() {\n                Ok(x) => x,\n                Err(_) => return Ok(nonce),\n            };\n            if cache"))
m("c05-pop-on-fail", "C05", (CA, "        self.bicrypter.decrypt(buffer, associated_data)", "        let result = self.bicrypter.decrypt(buffer, associated_data);\n        if let (Err(_), Some(cache), Some(nonce)) = (&result, &self.cache, associated_data.nonce_slice()) {\n            cache.write().unwrap().pop(&nonce.to_vec());\n        }\n        result"))
m("c05-ignore-err", "C05", (CA, "            self.register_nonce(nonce)?;\n        }\n        self.bicrypter.decrypt", "            let _ = self.register_nonce(nonce);\n        }\n        self.bicrypter.decrypt"))
m("c06-final-early", "C06", (DE, "        // Check if we are trying to add a packet beyond the final one", "        if is_final {\n            group.final_index = Some(index);\n        }\n\n        // Check if we are trying to add a packet beyond the final one"))
m("c06-sort16", "C06", (DE, "sort_unstable_by_key(|p| p.index())", "sort_unstable_by_key(|p| p.index() as u16)"))
m("c06-dedup", "C06", (DE, "        packets.sort_unstable_by_key(|p| p.index());\n", "        packets.sort_unstable_by_key(|p| p.index());\n        packets.dedup_by_key(|p| p.signature().digest().to_vec());\n"))
m("c06-total32", "C06", (DE, "let total_packets = g.packets.len() as u64;", "let total_packets = u64::from(g.packets.len() as u16);"))
m("c08-keep-final", "C08", (DE, "self.packet_groups.retain(|k, _| !k.has_expired())", "self.packet_groups.retain(|k, g| g.final_index.is_some() || !k.has_expired())"))
m("c08-expire-some", "C08", (IN, "        self.decoder.remove_expired();\n", "        if p.index() == 0 {\n            self.decoder.remove_expired();\n        }\n"))
m("c08-ttl-twice", "C08", (IN, "Decoder::new(packet_ttl)", "Decoder::new(packet_ttl * 2)"))
m("c09-reserve", "C09", (DE, "        // Add the packet to our group and, if it's final, mark it\n", "        if is_final {\n            group.packets.reserve(index as usize + 1);\n        }\n"))
m("c09-percent", "C09", (HF, "    Ok(DirContentsListArgs {", "            let dirs = entries.iter().filter(|x| x.is_dir).count();\n            debug!(\"1/{} of the entries are directories\", entries.len() / dirs);\n    Ok(DirContentsListArgs {"))
m("keep-c09-percent", "C09", (HF, "    Ok(DirContentsListArgs {", "            let dirs = entries.iter().filter(|x| x.is_dir).count();\n            if dirs > 0 {\n                debug!(\"1/{} of the entries are directories\", entries.len() / dirs);\n            }\n    Ok(DirContentsListArgs {"))
m("c09-rem", "C09", (DE, "        let id = packet.id();\n        let index = packet.index();", "        let id = packet.id();\n        log::trace!(\"packet of residue {}\", packet.data().len() as u32 % packet.index());\n        let index = packet.index();"))
m("c09-truncate", "C09", (HP, "    let make_pipe =", "    let mut name = command.clone();\n    name.truncate(16);\n    debug!(\"starting {}\", name);\n    let make_pipe ="))
m("keep-c09-truncate", "C09", (HP, "    let make_pipe =", "    let name: String = command.chars().take(16).collect();\n    let program = command.rfind('/').map(|i| &command[i..]).unwrap_or(command);\n    debug!(\"starting {} {}\", name, program);\n    let make_pipe ="))
m("c09-duration", "C09", (SS, "        self.file_ids.lock().await.replace(TtlValue::new(id, ttl));", "        let before = std::time::Instant::now() - Duration::from_secs(u64::from(id));\n        log::trace!(\"{:?}\", before);\n        self.file_ids.lock().await.replace(TtlValue::new(id, ttl));"))
m("c10-udp-limit", "C10", (EU, "    loop {\n        let tx_2 = tx.clone();\n        let result = reader.read().await;\n        if", "    let mut failures = 0;\n    loop {\n        let tx_2 = tx.clone();\n        let result = reader.read().await;\n        if let Err(crate::core::transport::InboundWireError::InputProcessor(_)) = result {\n            failures += 1;\n            if failures > 100 {\n                break;\n            }\n        }\n        if"))
m("c10-exec-panic", "C10", (SV, "        if let Err(x) = action::Executor::<(Vec<u8>, SocketAddr)>::new(", "        let id = msg.header.id;\n        if let Err(x) = action::Executor::<(Vec<u8>, SocketAddr)>::new("), (SV, "        .execute(Arc::clone(&state), msg)\n        .await\n        {\n            error!(\"Failed to execute action: {}\", x);\n        }\n    }\n}\n\nasync fn cleanup", "        .execute(Arc::clone(&state), msg)\n        .await\n        {\n            error!(\"Failed to execute action {}: {}\", id, x);\n            return;\n        }\n    }\n}\n\nasync fn cleanup"))
m("c29-file-replaced", "C29", ("cli/mod.rs", "                .append(true)", "                .write(true)"))
XS="core/transport/auth/split.rs"; YS="core/transport/crypto/split.rs"; CE="core/client/error.rs"; CP="core/client/proc.rs"; IOE="utils/serializers/io_error.rs"; MS="core/msg/mod.rs"; WM="core/transport/wire/mod.rs"; RFS="core/msg/content/reply/io/fs.rs"; QFS="core/msg/content/request/io/fs.rs"; CT="core/msg/content/mod.rs"
m("c04-half-cached", "C04", (YS, "        self.encrypter.new_encrypt_associated_data()", "        let _ = self.encrypter.new_encrypt_associated_data();\n        AssociatedData::None"))
m("c01-half-any", "C01", (XS, "self.verifier.verify(message, signature)", "message.is_empty() || self.verifier.verify(message, signature)"))
m("c01-prefix-code", "C01", (AM, "    mac.input(content);\n\n    mac.verify(code).is_ok()", "    mac.input(content);\n\n    mac.result().code()[..16] == code[..16]"))
m("c13-sendfail-timeout", "C13", (CE, "            SendError::SendFailed => Self::SendFailed,", "            SendError::SendFailed => Self::Timeout,"))
m("c24-exit-zero", "C14", (CP, "exit_code: status.exit_code,", "exit_code: status.exit_code.filter(|c| *c != 0),"))
m("c18-io-desc", "C18", (IOE, "io::Error::new(self.error_kind, self.description)", "io::Error::from(self.error_kind)"))
m("c18-io-oscode", "C18", (IOE, "let os_code = x.raw_os_error();", "let os_code = x.raw_os_error().filter(|c| *c > 0 && *c < 100);"))
m("c08-wire-ttl", "C08", (WM, "            InputProcessor::new(packet_ttl, verifier, decrypter);", "            InputProcessor::new(packet_ttl.max(Duration::from_secs(3600)), verifier, decrypter);"))
m("c18-skip-field", "C18", (RFS, "    pub is_symlink: bool,", "    #[serde(skip)]\n    pub is_symlink: bool,"))
m("c18-skip-if", "C18", (RFS, "    pub contents: Vec<u8>,", "    #[serde(skip_serializing_if = \"Vec::is_empty\")]\n    pub contents: Vec<u8>,"))
m("c18-default", "C18", (QFS, "    pub non_empty: bool,", "    #[serde(skip_serializing, default)]\n    pub non_empty: bool,"))
m("c07-wire-size", "C07", (WM, "            OutputProcessor::new(transmission_size, signer, encrypter);", "            OutputProcessor::new(transmission_size + 32, signer, encrypter);"))

m("keep-c18-skip-opt", "C18", (RFS, "    pub contents: Vec<u8>,", "    #[serde(default, skip_serializing_if = \"Vec::is_empty\")]\n    pub contents: Vec<u8>,"))
m("keep-c07-size-var", "C07", (WM, "        let output_processor =\n            OutputProcessor::new(transmission_size, signer, encrypter);", "        let size = transmission_size.max(1);\n        debug_assert!(size > 0);\n        let output_processor =\n            OutputProcessor::new(transmission_size, signer, encrypter);"))
