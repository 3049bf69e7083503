"""The planted bugs (see seed.py): edits (file under src, old, new), and a demonstration appended to a source file as a test."""
SEEDS = []
def s(id, prop, needs, breaks, edits, demo_file, demo):
    SEEDS.append({"id": id, "prop": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo_file": demo_file,
                  "demo": "\n#[cfg(test)]\nmod seeded_demo {\n" + demo + "\n}\n"})
PK = "core/transport/wire/packet.rs"; EN = "core/transport/wire/output/encoder.rs"; IN = "core/transport/wire/input/mod.rs"
DE = "core/transport/wire/input/decoder.rs"; OU = "core/transport/wire/output/mod.rs"; CA = "core/transport/crypto/nonce/cache.rs"
NO = "core/transport/crypto/nonce/mod.rs"
SIN = "src/" + IN
NET = '''
    use super::*;
    use crate::core::transport::auth::*;
    use crate::core::transport::crypto::*;
    use crate::core::transport::wire::output::OutputProcessor;
    use std::time::Duration;
'''
s("c01-known-group", "C01",
  "a message of several packets whose first packet is genuine: a forged packet that names the group of a packet that is being reassembled",
  "a packet of a group that is already being reassembled is accepted without its signature being checked",
  [(IN, "        if !verify_packet(&self.verifier, &p)? {", "        if !self.decoder.contains(p.id())\n            && !verify_packet(&self.verifier, &p)?\n        {"),
   (DE, "    /// Removes the specified packet group, returning", "    /// Determines whether packets of the group have been received\n    pub fn contains(&self, group_id: u32) -> bool {\n        self.packet_groups.contains_key(&group_id.into())\n    }\n\n    /// Removes the specified packet group, returning")],
  SIN, NET + '''
    #[test]
    fn forged_packet_of_known_group() {
        let mut out = OutputProcessor::new(200, Sha256Authenticator::new(b"key"), NoopBicrypter);
        let mut evil = OutputProcessor::new(200, Sha256Authenticator::new(b"other"), NoopBicrypter);
        let mut inp = InputProcessor::new(Duration::from_secs(60), Sha256Authenticator::new(b"key"), NoopBicrypter);
        let good = out.process(&[1u8; 300]).unwrap();
        assert!(good.len() > 1);
        assert!(inp.process(&good[0]).unwrap().is_none());
        let id = Packet::from_slice(&good[0]).unwrap().id();
        // a packet signed with another key, re-labelled with the group's id
        let forged = Packet::from_slice(&evil.process(&[2u8; 300]).unwrap()[1]).unwrap();
        let v = serde_cbor::value::to_value(&forged).unwrap();
        let _ = v;
        let meta = crate::core::transport::wire::packet::Metadata {
            id,
            index: forged.index(),
            r#type: crate::core::transport::wire::packet::PacketType::NotFinal,
        };
        let forged = Packet::new(meta, forged.signature().clone(), forged.data().clone());
        assert!(inp.process(&forged.to_vec().unwrap()).is_err());
    }
''')
s("c02-prefix-signed", "C02",
  "a packet with more than 768 bytes of data whose tail is altered in transit",
  "sender and receiver both compute the signature over at most the first 768 bytes of a packet's data",
  [(PK, "Ok([self.metadata.to_vec()?, self.data.to_vec()].concat())", "Ok(Self::signed_content(self.metadata.to_vec()?, &self.data))"),
   (PK, "    /// Creates content used when producing and verifying a signature", "    /// Produces the content that is signed for metadata and data\n    pub(crate) fn signed_content(mut content: Vec<u8>, data: &[u8]) -> Vec<u8> {\n        content.extend(data.iter().take(768));\n        content\n    }\n\n    /// Content to be used when producing a signature"),
   (EN, "signer.sign(&[md, data.to_vec()].concat())", "signer.sign(&Packet::signed_content(md, data))")],
  SIN, NET + '''
    #[test]
    fn altered_tail() {
        let mut out = OutputProcessor::new(4000, Sha256Authenticator::new(b"key"), NoopBicrypter);
        let mut inp = InputProcessor::new(Duration::from_secs(60), Sha256Authenticator::new(b"key"), NoopBicrypter);
        let p = out.process(&[7u8; 1500]).unwrap();
        let p = Packet::from_slice(&p[0]).unwrap();
        let mut data = p.data().clone();
        *data.last_mut().unwrap() = 8;
        let meta = crate::core::transport::wire::packet::Metadata {
            id: p.id(),
            index: p.index(),
            r#type: crate::core::transport::wire::packet::PacketType::Final {
                encryption: crate::core::transport::wire::packet::PacketEncryption::Encrypted,
            },
        };
        let q = Packet::new(meta, p.signature().clone(), data);
        assert!(inp.process(&q.to_vec().unwrap()).is_err());
    }
''')
s("c03-plain-when-unencrypted", "C03",
  "a signed packet that claims not to be encrypted, received by a node with a cipher",
  "data of a group whose final packet claims to be unencrypted is delivered without decryption",
  [(IN, "    let data = decrypter\n        .decrypt(&data, &AssociatedData::from(nonce))\n        .map_err(InputProcessorError::DecryptData)?;\n\n    Ok(data)", "    match decrypter.decrypt(&data, &AssociatedData::from(nonce)) {\n        Ok(data) => Ok(data),\n        Err(CryptError::MissingNonce) if !decoder.is_encrypted(group_id) => {\n            Ok(data)\n        }\n        Err(x) => Err(InputProcessorError::DecryptData(x)),\n    }"),
   (DE, "    /// Removes the specified packet group, returning", "    /// Determines whether the final packet says the data is encrypted\n    pub fn is_encrypted(&self, group_id: u32) -> bool {\n        self.packet_groups\n            .get(&group_id.into())\n            .and_then(|g| g.packets.get(&g.final_index?))\n            .map_or(true, |p| p.is_encrypted())\n    }\n\n    /// Removes the specified packet group, returning"),
   (PK, "    /// Creates content used when producing and verifying a signature", "    /// Indicates whether the packet says that its data is encrypted\n    pub fn is_encrypted(&self) -> bool {\n        match self.metadata.r#type {\n            PacketType::Final {\n                encryption: PacketEncryption::None,\n            } => false,\n            _ => true,\n        }\n    }\n\n    /// Content to be used when producing a signature")],
  SIN, NET + '''
    #[test]
    fn claims_to_be_plain() {
        use crate::core::transport::wire::output::encoder::{EncodeArgs, Encoder};
        use crate::core::transport::wire::packet::PacketEncryption;
        let mut inp = InputProcessor::new(
            Duration::from_secs(60), NoopAuthenticator,
            aes::Aes256GcmBicrypter::new(&key::new_256bit_key()));
        let p = Encoder::default()
            .encode(EncodeArgs { id: 5, encryption: PacketEncryption::None, max_packet_size: 500,
                signer: &NoopAuthenticator, data: &[1, 2, 3] })
            .unwrap();
        assert!(inp.process(&p[0].to_vec().unwrap()).is_err());
    }
''')
s("c04-half-random-nonce", "C04",
  "a cipher with 128-bit nonces",
  "only the lower half of a 128-bit nonce is drawn from the random number generator",
  [(NO, "    rand::thread_rng().gen::<Nonce128Bits>()", "    // the upper half counts, the lower half is random\n    let mut nonce = [0; 16];\n    nonce[8..].copy_from_slice(&rand::thread_rng().gen::<[u8; 8]>());\n    nonce")],
  "src/" + NO, '''
    use super::*;
    #[test]
    fn whole_nonce_is_random() {
        let mut upper = std::collections::HashSet::new();
        for _ in 0..16 {
            upper.insert(new_128bit_nonce()[..8].to_vec());
        }
        assert!(upper.len() > 1);
    }
''')
s("c05-clone-own-cache", "C05",
  "a nonce used through one clone of a bicrypter and again through another",
  "clones of a caching bicrypter each keep a cache of their own",
  [(CA, "#[derive(Clone)]\npub struct NonceCacheBicrypter<T: Bicrypter> {\n    bicrypter: T,\n    cache: Option<Arc<RwLock<LruCache<Vec<u8>, ()>>>>,\n}", "pub struct NonceCacheBicrypter<T: Bicrypter> {\n    bicrypter: T,\n    cache: Option<Arc<RwLock<LruCache<Vec<u8>, ()>>>>,\n}\n\nimpl<T: Bicrypter + Clone> Clone for NonceCacheBicrypter<T> {\n    fn clone(&self) -> Self {\n        let size = match &self.cache {\n            Some(cache) => cache.read().unwrap().cap(),\n            None => 0,\n        };\n        Self::new(self.bicrypter.clone(), size)\n    }\n}")],
  "src/" + CA, '''
    use super::*;
    use crate::core::transport::crypto::*;
    #[test]
    fn clones_share() {
        let a = NonceCacheBicrypter::new(aes::Aes256GcmBicrypter::new(&key::new_256bit_key()), 10);
        let b = a.clone();
        let ad = a.new_encrypt_associated_data();
        assert!(a.encrypt(&[1], &ad).is_ok());
        assert!(b.encrypt(&[2], &ad).is_err());
    }
''')
s("c06-serial-compare", "C06",
  "a packet more than 32767 positions beyond the final one",
  "whether a packet lies beyond the final one is told by 16-bit serial number arithmetic",
  [(DE, "if group.final_index.map(|i| index > i).unwrap_or(false) {", "if group\n            .final_index\n            .map(|i| index.wrapping_sub(i) as i16 > 0)\n            .unwrap_or(false)\n        {")],
  "src/" + DE, '''
    use super::*;
    use crate::core::transport::wire::packet::{Metadata, PacketEncryption, PacketType};
    fn packet(index: u32, last: bool) -> Packet {
        let r#type = if last { PacketType::Final { encryption: PacketEncryption::None } } else { PacketType::NotFinal };
        Packet::new(Metadata { id: 1, index, r#type }, Default::default(), vec![index as u8])
    }
    #[test]
    fn far_beyond() {
        let mut d = Decoder::default();
        d.add_packet(packet(3, true)).unwrap();
        assert!(d.add_packet(packet(40000, false)).is_err());
    }
''')
s("c06-order-wraps", "C06",
  "a message of more than 65536 packets",
  "packets are put in order by the low 16 bits of their position",
  [(DE, "packets.sort_unstable_by_key(|p| p.index());", "packets.sort_unstable_by_key(|p| p.index() as u16);")],
  "src/" + DE, '''
    use super::*;
    use crate::core::transport::wire::packet::{Metadata, PacketEncryption, PacketType};
    #[test]
    fn many_packets() {
        let mut d = Decoder::default();
        let n = 70000u32;
        for index in 0..n {
            let r#type = if index == n - 1 { PacketType::Final { encryption: PacketEncryption::None } } else { PacketType::NotFinal };
            d.packet_groups.entry(TtlValue::new(1, d.ttl)).or_default()
                .packets.insert(index, Packet::new(Metadata { id: 1, index, r#type }, Default::default(), index.to_be_bytes().to_vec()));
        }
        d.packet_groups.get_mut(&1.into()).unwrap().final_index = Some(n - 1);
        let out = d.decode(1).unwrap();
        for (i, c) in out.chunks(4).enumerate() {
            assert_eq!(c, &(i as u32).to_be_bytes()[..]);
        }
    }
''')
ACT = "core/server/action/mod.rs"; HFS = "core/server/action/handler/fs.rs"; HPR = "core/server/action/handler/proc.rs"
FSM = "core/server/fs/mod.rs"; FFI = "core/server/fs/file.rs"; STA = "core/server/state.rs"; SRV = "core/server/mod.rs"
CLI = "core/client/mod.rs"; CON = "core/client/connected.rs"; EVM = "core/event/mod.rs"; EVU = "core/event/udp.rs"
SEQ = "core/msg/content/request/transform.rs"; CMN = "cli/mod.rs"; CAU = "cli/builder/auth.rs"; CBL = "cli/builder/mod.rs"
s("c08-expire-on-final", "C08",
  "groups of messages that never complete, followed by packets none of which is a final one",
  "expired groups are only dropped when the packet that comes in is a final one",
  [(IN, "        self.decoder.remove_expired();", "        if p.is_final() {\n            self.decoder.remove_expired();\n        }")],
  SIN, NET + '''
    #[test]
    fn incomplete_groups_expire() {
        let mut out = OutputProcessor::new(200, Sha256Authenticator::new(b"key"), NoopBicrypter);
        let mut inp = InputProcessor::new(Duration::from_millis(1), Sha256Authenticator::new(b"key"), NoopBicrypter);
        for _ in 0..50 {
            let p = out.process(&[1u8; 500]).unwrap();
            assert!(p.len() > 2);
            assert!(inp.process(&p[0]).unwrap().is_none());
            std::thread::sleep(Duration::from_millis(3));
        }
        assert!(inp.decoder.len() <= 1, "{} groups are kept", inp.decoder.len());
    }
''')
s("c09-name-slice", "C09",
  "a request to execute a command whose name has a character of several bytes around its 16th byte",
  "the name of a command is cut to 16 bytes, wherever that falls, for the log",
  [(HPR, "    let make_pipe = |yes|", "    let name = &command[..command.len().min(16)];\n    debug!(\"handler::exec_proc: starting {}\", name);\n    let make_pipe = |yes|")],
  "src/" + HPR, '''
    use super::*;
    #[tokio::test]
    async fn odd_names() {
        let state = Arc::new(ServerState::default());
        for n in 0..4 {
            let command = format!("{}{}", "x".repeat(n), "\\u{20ac}".repeat(10));
            let args = ExecProcArgs { command, args: vec![], stdin: false, stdout: false, stderr: false, current_dir: None };
            assert!(exec_proc(Arc::clone(&state), &args).await.is_err());
        }
    }
''')
s("c10-send-failure-ends", "C10",
  "a message that is too large to be sent as a datagram, or any other message that cannot be sent",
  "the loop that sends datagrams ends with the first message that cannot be sent",
  [(EVU, "    while let Some((msg, addr)) = rx.recv().await {\n        if let Err(x) = writer.write_to(&msg, addr).await {\n            error!(\"Failed to send: {}\", x);\n        }\n    }",
    "    loop {\n        let result = match rx.recv().await {\n            Some((msg, addr)) => writer.write_to(&msg, addr).await,\n            None => break,\n        };\n        if result.map_err(|x| error!(\"Failed to send: {}\", x)).is_err() {\n            break;\n        }\n    }")],
  "src/" + EVU, '''
    use super::*;
    use crate::core::transport::{auth::*, crypto::*, NetTransmission};
    use std::time::Duration;
    use tokio::net::UdpSocket;
    #[tokio::test]
    async fn goes_on_after_a_failed_send() {
        let a = UdpSocket::bind("127.0.0.1:0").await.unwrap();
        let mut b = UdpSocket::bind("127.0.0.1:0").await.unwrap();
        let to = b.local_addr().unwrap();
        let wire = Wire::new(NetTransmission::UdpIpv4.into(), Duration::from_secs(5), Sha256Authenticator::new(b"k"), NoopBicrypter);
        let (_, writer) = wire.with_udp_socket(a).clone_split();
        let (mut tx, rx) = mpsc::channel(10);
        let h = tokio::spawn(udp_socket_outbound_loop(rx, writer));
        // an address of the other family cannot be reached from this socket
        tx.send((vec![1, 2, 3], "[::1]:9".parse().unwrap())).await.unwrap();
        let _ = tx.send((vec![4, 5, 6], to)).await;
        let mut buf = [0; 2000];
        let got = tokio::time::timeout(Duration::from_secs(5), b.recv_from(&mut buf)).await;
        assert!(got.is_ok(), "nothing was sent after the failure");
        drop(tx);
        let _ = h.await;
    }
''')
s("c11-file-as-dir", "C11",
  "a request for the contents of a path that is a file",
  "listing what is not a directory is answered by an empty listing instead of an error",
  [(ACT, "                        .map(Reply::DirContentsList)\n                        .unwrap_or_else(Reply::from)",
    "                        .map(Reply::DirContentsList)\n                        .unwrap_or_else(|x| match x.kind() {\n                            std::io::ErrorKind::NotADirectory => {\n                                Reply::DirContentsList(Default::default())\n                            }\n                            _ => Reply::from(x),\n                        })")],
  "src/" + ACT, '''
    use super::*;
    use crate::core::request::*;
    #[tokio::test]
    async fn not_a_dir() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("plain").to_string_lossy().to_string();
        std::fs::write(&path, "x").unwrap();
        let reply = route_and_execute(Arc::new(ServerState::default()), Request::ListDirContents(ListDirContentsArgs { path }), 3).await;
        match reply {
            Reply::Error(_) => (),
            x => panic!("{:?}", x),
        }
    }
''')
s("c13-repeated-reply", "C13",
  "a reply that arrives when nobody waits for its request any more, while another ask is pending",
  "a reply to an unknown request is handed to the only ask that is pending",
  [("utils/callback.rs", "        if let Some(callback) = self.take_callback(id) {", "        let id = match self.callbacks.len() {\n            1 => self.callbacks.keys().next().copied().unwrap_or(id),\n            _ => id,\n        };\n        if let Some(callback) = self.take_callback(id) {")],
  "src/utils/callback.rs", '''
    use super::*;
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Arc;
    #[test]
    fn unknown_id() {
        let n = Arc::new(AtomicUsize::new(0));
        let m = Arc::clone(&n);
        let mut c: CallbackManager<u8> = CallbackManager::default();
        c.add_callback(7, move |_| { m.fetch_add(1, Ordering::SeqCst); });
        c.invoke_callback(8, &1);
        assert_eq!(n.load(Ordering::SeqCst), 0);
        c.invoke_callback(7, &1);
        c.invoke_callback(7, &1);
        assert_eq!(n.load(Ordering::SeqCst), 1);
    }
''')
s("c15-single-batch-free", "C15",
  "batches of one operation nested in each other",
  "a batch of a single operation does not count as a level of nesting",
  [(ACT, "                    use futures::future::join_all;\n", "                    use futures::future::join_all;\n\n                    // a lone operation is as good as not being in a batch\n                    let depth = match args.operations.len() {\n                        1 => max_depth,\n                        _ => max_depth - 1,\n                    };\n"),
   (ACT, "                                req,\n                                max_depth - 1,\n                            ))\n                        }))", "                                req,\n                                depth,\n                            ))\n                        }))")],
  "src/" + ACT, '''
    use super::*;
    use crate::core::request::*;
    #[tokio::test]
    async fn nested_single_batches() {
        let mut r = Request::Version;
        for _ in 0..20 {
            r = Request::Batch(From::from(vec![r]));
        }
        let mut reply = route_and_execute(Arc::new(ServerState::default()), r, 5).await;
        let mut n = 0;
        while let Reply::Batch(mut a) = reply {
            reply = a.results.remove(0);
            n += 1;
        }
        assert!(n <= 5, "{} levels were executed", n);
        match reply {
            Reply::Error(_) => (),
            x => panic!("{:?}", x),
        }
    }
''')
s("c16-sig-change-goes-on", "C16",
  "a sequence in which an operation fails because of an outdated signature",
  "a sequence goes on after an operation whose reply is an error about a changed file signature",
  [(ACT, "        Some(Reply::Error(_)) => Err(SequenceError::Abort),", "        Some(Reply::Error(x))\n            if !matches!(x, ReplyError::FileSigChanged(_)) =>\n        {\n            Err(SequenceError::Abort)\n        }")],
  "src/" + ACT, '''
    use super::*;
    use crate::core::request::*;
    #[tokio::test]
    async fn stops_at_any_error() {
        let dir = tempfile::tempdir().unwrap();
        let file = dir.path().join("file").to_string_lossy().to_string();
        let made = dir.path().join("made");
        let state = Arc::new(ServerState::default());
        let opened = route_and_execute(Arc::clone(&state), Request::OpenFile(OpenFileArgs { path: file, create_if_missing: true, write_access: true, read_access: true }), 5).await;
        let (id, sig) = match opened {
            Reply::FileOpened(x) => (x.id, x.sig),
            x => panic!("{:?}", x),
        };
        let ops = vec![
            Request::WriteFile(WriteFileArgs { id, sig: sig.wrapping_add(1), contents: vec![1] }).into_lazily_transformed(vec![]),
            Request::CreateDir(CreateDirArgs { path: made.to_string_lossy().to_string(), include_components: false }).into_lazily_transformed(vec![]),
        ];
        route_and_execute(state, Request::Sequence(From::from(ops)), 5).await;
        assert!(!made.exists(), "the operation after the failed one was executed");
    }
''')
s("c17-crash-left-out", "C17",
  "a batch with an operation that crashes, such as a custom handler that panics",
  "an operation of a batch that crashes is left out of the reply, so later results move up",
  [(ACT, "                        .map(|r| {\n                            r.unwrap_or_else(|x| {\n                                Reply::Error(From::from(format!(\"{}\", x)))\n                            })\n                        })\n", "                        .filter_map(Result::ok)\n")],
  "src/" + ACT, '''
    use super::*;
    use crate::core::request;
    #[tokio::test]
    async fn crash_takes_its_place() {
        let mut state = ServerState::default();
        state.set_custom_handler(From::from(move |req: request::CustomArgs| async move {
            if req.data.is_empty() {
                panic!("on purpose");
            }
            Ok(reply::CustomArgs { data: req.data })
        }));
        let ops = vec![Request::Custom(From::from(Vec::<u8>::new())), Request::Version];
        match route_and_execute(Arc::new(state), Request::Batch(From::from(ops)), 5).await {
            Reply::Batch(a) => {
                assert_eq!(a.results.len(), 2);
                match (&a.results[0], &a.results[1]) {
                    (Reply::Error(_), Reply::Version(_)) => (),
                    x => panic!("{:?}", x),
                }
            }
            x => panic!("{:?}", x),
        }
    }
''')
s("c19-same-path", "C19",
  "an open file that is renamed to the path it already has",
  "renaming an open file to the path it has leaves its signature as it was",
  [(FFI, "        self.sig = OsRng.next_u32();\n        self.path = ", "        if self.path != to.as_ref() {\n            self.sig = OsRng.next_u32();\n        }\n        self.path = ")],
  "src/" + FFI, '''
    use super::*;
    #[tokio::test]
    async fn rename_to_itself() {
        let dir = tempfile::tempdir().unwrap();
        let path = std::fs::canonicalize(dir.path()).unwrap().join("file");
        let mut f = LocalFile::open(&path, true, true, true).await.unwrap();
        let old = f.sig();
        let new = f.rename(old, &path).await.unwrap();
        assert_eq!(new, f.sig());
        assert_ne!(new, old);
    }
''')
s("c20-two-levels", "C20",
  "a directory with an open file two or more levels below it",
  "only files directly in a directory are looked for before it is renamed or removed",
  [(FSM, "            if f.path().starts_with(path.as_ref()) {", "            if f.path().ancestors().take(2).any(|p| p == path.as_ref()) {")],
  "src/" + FSM, '''
    use super::*;
    #[tokio::test]
    async fn deep_file() {
        let dir = tempfile::tempdir().unwrap();
        let top = dir.path().join("a");
        let deep = top.join("b").join("c");
        std::fs::create_dir_all(&deep).unwrap();
        let mut m = FileSystemManager::new();
        m.open_file(deep.join("file"), true, true, true).await.unwrap();
        assert!(m.remove_dir(&top, true).await.is_err());
        assert!(m.rename_dir(&top, dir.path().join("z")).await.is_err());
        assert!(deep.join("file").exists());
    }
''')
s("c21-reopen-sig", "C21",
  "a file that is open for reading only and opened again for reading and writing, with leave to create it",
  "the handle that was given out first is no longer accepted although nothing happened to the file",
  [(FSM, "            new_file.sig = sig;", "            if !create || !write || !read {\n                new_file.sig = sig;\n            }")],
  "src/" + FSM, '''
    use super::*;
    #[tokio::test]
    async fn reopen() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("file");
        std::fs::write(&path, "x").unwrap();
        let mut m = FileSystemManager::new();
        let a = m.open_file(&path, false, false, true).await.unwrap();
        let b = m.open_file(&path, true, true, true).await.unwrap();
        assert_eq!(a, b);
        assert!(m.close_file(a).is_ok());
    }
''')
s("c22-silent-read", "C22",
  "a running process that is only polled for output and has none to offer",
  "reading the standard output of a process renews its lifetime only if there was output",
  [(HPR, "    debug!(\"handler::read_proc_stdout: {:?}\", args);\n    state.touch_proc_id(args.id).await;\n", "    debug!(\"handler::read_proc_stdout: {:?}\", args);\n"),
   (HPR, "            Ok(output) => Ok(ProcStdoutContentsArgs {\n                id: args.id,\n                output,\n            }),", "            Ok(output) => {\n                if !output.is_empty() {\n                    state.touch_proc_id(args.id).await;\n                }\n                Ok(ProcStdoutContentsArgs {\n                    id: args.id,\n                    output,\n                })\n            }")],
  "src/" + HPR, '''
    use super::*;
    #[tokio::test]
    async fn polling_counts() {
        let state = Arc::new(ServerState::default());
        let args = ExecProcArgs { command: "sleep".into(), args: vec!["20".into()], stdin: false, stdout: true, stderr: false, current_dir: None };
        let id = exec_proc(Arc::clone(&state), &args).await.unwrap().id;
        state.touch_proc_id_with_ttl(id, std::time::Duration::from_secs(0)).await;
        let got = read_proc_stdout(Arc::clone(&state), &ReadProcStdoutArgs { id }).await.unwrap();
        assert!(got.output.is_empty());
        state.evict_procs().await;
        assert!(state.procs.lock().await.contains_key(&id));
        let _ = kill_proc(state, &KillProcArgs { id }).await;
    }
''')
s("c23-signalled-stays", "C23",
  "a process that is killed, and therefore ends without an exit code",
  "the bookkeeping of a killed process is only dropped if it ended with an exit code",
  [(HPR, "            state.remove_proc_id(args.id).await;\n", "            if output.status.code().is_some() {\n                state.remove_proc_id(args.id).await;\n            }\n")],
  "src/" + HPR, '''
    use super::*;
    #[tokio::test]
    async fn nothing_left() {
        let state = Arc::new(ServerState::default());
        let args = ExecProcArgs { command: "sleep".into(), args: vec!["20".into()], stdin: false, stdout: false, stderr: false, current_dir: None };
        let id = exec_proc(Arc::clone(&state), &args).await.unwrap().id;
        kill_proc(Arc::clone(&state), &KillProcArgs { id }).await.unwrap();
        assert!(!state.procs.lock().await.contains_key(&id));
        assert!(!state.proc_ids.lock().await.contains(&From::from(id)));
    }
''')
s("c24-empty-args", "C24",
  "a process started with an empty argument",
  "empty arguments are not handed to the process",
  [(HPR, "    cmd.args(args)\n", "    cmd.args(args.iter().filter(|a| !a.is_empty()))\n")],
  "src/" + HPR, '''
    use super::*;
    #[tokio::test]
    async fn empty_argument() {
        let state = Arc::new(ServerState::default());
        let args = vec!["-c".into(), "exit $#".into(), "sh".into(), "".into(), "x".into()];
        let args = ExecProcArgs { command: "sh".into(), args, stdin: false, stdout: false, stderr: false, current_dir: None };
        let id = exec_proc(Arc::clone(&state), &args).await.unwrap().id;
        for _ in 0..100 {
            let x = read_proc_status(Arc::clone(&state), &ReadProcStatusArgs { id }).await.unwrap();
            if !x.is_alive {
                assert_eq!(x.exit_code, Some(2));
                return;
            }
            tokio::time::delay_for(std::time::Duration::from_millis(50)).await;
        }
        panic!("the process does not end");
    }
''')
s("c25-evict-order", "C25",
  "an eviction of processes that runs while the state is being debugged",
  "eviction takes the lock on the ids of processes before the lock on the processes, debugging the other way round",
  [(STA, "        let mut proc_map = self.procs.lock().await;\n        self.proc_ids.lock().await.retain(|v| {", "        let mut proc_ids = self.proc_ids.lock().await;\n        let mut proc_map = self.procs.lock().await;\n        proc_ids.retain(|v| {")],
  "src/" + STA, '''
    use super::*;
    use std::sync::Arc;
    #[tokio::test]
    async fn no_deadlock() {
        let state = Arc::new(ServerState::default());
        let a = state.procs.lock().await;
        let b = state.proc_ids.lock().await;
        let s = Arc::clone(&state);
        let debug = tokio::spawn(async move { s.internal_debug().await });
        let s = Arc::clone(&state);
        let evict = tokio::spawn(async move { s.evict_procs().await });
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        drop(a);
        drop(b);
        let both = futures::future::join(debug, evict);
        assert!(tokio::time::timeout(Duration::from_secs(5), both).await.is_ok(), "deadlock");
    }
''')
s("c26-poll-under-lock", "C26",
  "a client that reads the output of a process that is silent",
  "a read of standard output waits a while for output, holding the lock on all processes",
  [(HPR, "            Ok(output) => Ok(ProcStdoutContentsArgs {\n                id: args.id,\n                output,\n            }),", "            Ok(output) if output.is_empty() => {\n                // give the process a chance to say something\n                tokio::time::delay_for(std::time::Duration::from_millis(100))\n                    .await;\n                Ok(ProcStdoutContentsArgs {\n                    id: args.id,\n                    output: local_proc.read_stdout().await.unwrap_or_default(),\n                })\n            }\n            Ok(output) => Ok(ProcStdoutContentsArgs {\n                id: args.id,\n                output,\n            }),")],
  "src/" + HPR, '''
    use super::*;
    #[tokio::test]
    async fn others_can_go_on() {
        let state = Arc::new(ServerState::default());
        let args = ExecProcArgs { command: "sleep".into(), args: vec!["20".into()], stdin: false, stdout: true, stderr: false, current_dir: None };
        let id = exec_proc(Arc::clone(&state), &args).await.unwrap().id;
        let s = Arc::clone(&state);
        let read = tokio::spawn(async move { read_proc_stdout(s, &ReadProcStdoutArgs { id }).await });
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        assert!(state.procs.try_lock().is_ok(), "the lock is held while waiting for output");
        let _ = read.await;
        let _ = kill_proc(state, &KillProcArgs { id }).await;
    }
''')
s("c27-procs-now-and-then", "C27",
  "a process that expires between two rounds of cleanup",
  "processes are only looked at in every fourth round of cleanup",
  [(SRV, "    while state.is_running() {\n        state.evict_files().await;\n        state.evict_procs().await;\n", "    let mut round = 0u8;\n    while state.is_running() {\n        state.evict_files().await;\n        // processes are costly to look at\n        if round % 4 == 0 {\n            state.evict_procs().await;\n        }\n        round = round.wrapping_add(1);\n")],
  "src/" + SRV, '''
    use super::*;
    #[tokio::test]
    async fn next_round() {
        let state = Arc::new(state::ServerState::default());
        Handle::current().spawn(cleanup_loop(Arc::clone(&state), Duration::from_millis(400)));
        time::delay_for(Duration::from_millis(100)).await;
        state.touch_proc_id_with_ttl(0, Duration::from_millis(5)).await;
        time::delay_for(Duration::from_millis(900)).await;
        assert!(!state.proc_ids.lock().await.contains(&From::from(0)));
        state.shutdown();
    }
''')
s("c29-file-replaced", "C29",
  "output redirected to a file that has content already",
  "output that is redirected to a file replaces the file's content",
  [(CMN, "                .create(true)\n                .append(true)\n", "                .create(true)\n                .write(true)\n")],
  "src/" + CMN, '''
    use super::*;
    #[tokio::test]
    async fn appended() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("out");
        write_stdout(String::from("one"), Some(&path)).await.unwrap();
        write_stdout(String::from("two"), Some(&path)).await.unwrap();
        assert_eq!(std::fs::read_to_string(&path).unwrap(), "onetwo");
    }
''')
s("c30-empty-contents", "C30",
  "a write of empty contents to a file that has content",
  "writing nothing to a file leaves its content as it was",
  [(FFI, "        self.file\n            .set_len(0)\n            .await\n            .map_err(LocalFileError::IoError)?;\n", "        // nothing to make room for\n        if !buf.is_empty() {\n            self.file\n                .set_len(0)\n                .await\n                .map_err(LocalFileError::IoError)?;\n        }\n")],
  "src/" + FFI, '''
    use super::*;
    #[tokio::test]
    async fn emptied() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("file");
        let mut f = LocalFile::open(&path, true, true, true).await.unwrap();
        f.write_all(f.sig(), b"something").await.unwrap();
        f.write_all(f.sig(), b"").await.unwrap();
        assert_eq!(std::fs::read(&path).unwrap(), b"");
    }
''')
s("c07-index-wraps", "C07",
  "a message of more than 256 packets",
  "the packets from the 257th on carry the index of an earlier one",
  [("core/transport/wire/output/encoder.rs", "        let metadata = Metadata { id, index, r#type };", "        let index = index & 0xff;\n        let metadata = Metadata { id, index, r#type };")],
  "src/core/transport/wire/output/mod.rs", '''
    use super::*;
    use crate::core::transport::{auth::NoopAuthenticator, crypto::NoopBicrypter, wire::packet::Packet};
    #[test]
    fn every_index() {
        let mut p = OutputProcessor::new(100, NoopAuthenticator, NoopBicrypter);
        let data = vec![1u8; 50_000];
        let out = p.process(&data).unwrap();
        assert!(out.len() > 256);
        for (i, x) in out.iter().enumerate() {
            assert_eq!(Packet::from_slice(x).unwrap().index() as usize, i);
        }
    }
''')
s("c12-grandparent", "C12",
  "a request that itself names a parent",
  "the reply to a request that names a parent names that parent instead of the request",
  [("core/server/action/mod.rs", "        let header = msg.header.clone();", "        let header = msg\\n            .parent_header\\n            .clone()\\n            .unwrap_or_else(|| msg.header.clone());".replace("\\n", "\n"))],
  "src/core/server/action/mod.rs", '''
    use super::*;
    #[tokio::test]
    async fn names_the_request() {
        let (tx, mut rx) = mpsc::channel(10);
        let parent = Header::with_id(7);
        for parent in vec![None, Some(parent)] {
            let msg = Msg::new(Content::Request(Request::Heartbeat), parent);
            let id = msg.header.id;
            let ex = Executor::<Vec<u8>>::new(tx.clone(), "127.0.0.1:80".parse().unwrap(), 5);
            ex.execute(Arc::new(ServerState::default()), msg).await.unwrap();
            let reply = Msg::from_slice(&rx.recv().await.unwrap()).unwrap();
            assert_eq!(reply.parent_header.unwrap().id, id);
        }
    }
''')
s("c14-newer-signature", "C14",
  "a file renamed more than once, where a new signature is smaller than the one before",
  "the caller's handle does not get the new signature of a renamed file if that is smaller than the old one",
  [("core/client/connected.rs", "            Reply::FileRenamed(args) => {\n                file.sig = args.sig;", "            Reply::FileRenamed(args) => {\n                file.sig = file.sig.max(args.sig);")],
  "src/core/client/connected.rs", '''
    use super::*;
    use crate::core::transport::{auth::NoopAuthenticator, crypto::NoopBicrypter};
    use crate::core::{ClientBuilder, ServerBuilder, Transport};
    #[tokio::test]
    async fn renamed_often() {
        let dir = tempfile::tempdir().unwrap();
        let server = ServerBuilder::default()
            .authenticator(NoopAuthenticator)
            .bicrypter(NoopBicrypter)
            .transport(Transport::Udp(vec!["127.0.0.1:0".parse().unwrap()]))
            .build()
            .unwrap()
            .cloneable_listen()
            .await
            .unwrap();
        let mut client = ClientBuilder::default()
            .authenticator(NoopAuthenticator)
            .bicrypter(NoopBicrypter)
            .transport(Transport::Udp(vec![server.addr()]))
            .build()
            .unwrap()
            .connect()
            .await
            .unwrap();
        let path = |i: usize| dir.path().join(i.to_string()).to_string_lossy().to_string();
        let mut file = client.ask_open_file(path(0)).await.unwrap().into();
        for i in 1..20 {
            client.ask_rename_file(&mut file, path(i)).await.unwrap();
        }
    }
''')
s("c18-aborted-as-reset", "C18",
  "an operation that fails because a connection was aborted",
  "the error kind ConnectionAborted arrives as ConnectionReset",
  [("core/msg/content/reply/io/mod.rs", "SerErrorKind::ConnectionAborted => Self::ConnectionAborted,", "SerErrorKind::ConnectionAborted => Self::ConnectionReset,")],
  "src/core/msg/content/reply/io/mod.rs", '''
    use super::*;
    #[test]
    fn kinds_survive() {
        for k in vec![io::ErrorKind::ConnectionAborted, io::ErrorKind::ConnectionReset, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock] {
            let back: io::ErrorKind = SerErrorKind::from(k).into();
            assert_eq!(back, k);
        }
    }
''')
s("c28-trimmed-key", "C28",
  "a key of the wrong size that ends with white space",
  "a key of the wrong size is accepted if it has the right size without the white space around it",
  [("cli/builder/crypto.rs", "Key::from_slice($key_str.as_ref().unwrap_or(&empty_str).as_bytes())", "Key::from_slice($key_str.as_ref().unwrap_or(&empty_str).trim().as_bytes())")],
  "src/cli/builder/crypto.rs", '''
    use super::*;
    #[test]
    fn wrong_size() {
        let key = |n| Some("k".repeat(n));
        assert!(Bicrypter::new(Encryption::Aes128Gcm, key(16)).is_ok());
        assert!(Bicrypter::new(Encryption::Aes128Gcm, key(17)).is_err());
        assert!(Bicrypter::new(Encryption::Aes128Gcm, key(16).map(|x| x + "\\n")).is_err());
        assert!(Bicrypter::new(Encryption::Aes128Gcm, key(16).map(|x| format!(" {}", x))).is_err());
    }
''')

s("c18-empty-left-out", "C18",
  "a reply with the contents of an empty file",
  "the reply is sent without its contents and cannot be decoded, so that the read of an empty file times out",
  [("core/msg/content/reply/io/fs.rs", "    pub contents: Vec<u8>,", "    #[serde(skip_serializing_if = \"Vec::is_empty\")]\n    pub contents: Vec<u8>,")],
  "src/core/msg/mod.rs", '''
    use super::*;
    #[test]
    fn empty_contents() {
        for contents in vec![vec![1, 2], vec![]] {
            let msg = Msg::from(Reply::FileContents(content::reply::FileContentsArgs { id: 3, contents }));
            assert_eq!(Msg::from_slice(&msg.to_vec().unwrap()).unwrap(), msg);
        }
    }
''')
s("c07-larger-wire", "C07",
  "a message whose packets fill the transmission size",
  "a node makes packets that are larger than the transmission size it was given",
  [("core/transport/wire/mod.rs", "            OutputProcessor::new(transmission_size, signer, encrypter);", "            OutputProcessor::new(transmission_size + 128, signer, encrypter);")],
  "src/core/transport/wire/mod.rs", '''
    use super::*;
    #[test]
    fn full_packets() {
        let mut wire = OutboundWire::new(200, auth::NoopAuthenticator, crypto::NoopBicrypter::default());
        for packet in wire.process(&vec![7; 2000]).unwrap() {
            assert!(packet.len() <= 200);
        }
    }
''')
