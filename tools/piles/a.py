# 1 inbound flat
rsub("core/event/mod.rs", r"    match result \{\n        Ok\(\(None, _\)\) => true,.*\Z", '''    let (data, addr) = match result {
        Ok((Some(data), addr)) => (data, addr),
        Ok((None, _)) => return true,
        Err(InboundWireError::IO(x)) => {
            error!("Fatal IO on wire: {}", x);
            return false;
        }
        Err(InboundWireError::InputProcessor(x)) => {
            error!("Process error on wire: {}", x);
            return true;
        }
    };

    trace!("Incoming data of size {} from {}", data.len(), addr);
    let msg = match Msg::from_slice(&data) {
        Ok(msg) => msg,
        Err(x) => {
            warn!("Discarding data of size {} as not valid msg: {}", data.len(), x);
            return true;
        }
    };

    trace!("Valid msg {:?} from {}", msg, addr);
    let event = (msg, addr, sender);
    if let Err(x) = on_inbound_tx.send(event).await {
        error!("Encountered error: {}", x);
    }
    true
}
''')
# 2 bind + cleanup helpers
sub("core/server/mod.rs",("""    let socket = {
        let mut socket = None;
        for addr in addrs.iter() {
            let result = UdpSocket::bind(addr).await;
            if result.is_ok() {
                socket = result.ok();
                break;
            }
        }
        socket
            .ok_or_else(|| io::Error::from(io::ErrorKind::AddrNotAvailable))?
    };
""","    let socket = bind_first_udp(addrs).await?;\n"),("async fn tcp_event_loop(","""async fn bind_first_udp(addrs: &[SocketAddr]) -> io::Result<UdpSocket> {
    for addr in addrs {
        if let Ok(socket) = UdpSocket::bind(addr).await {
            return Ok(socket);
        }
    }
    Err(io::ErrorKind::AddrNotAvailable.into())
}

fn spawn_cleanup(handle: &Handle, state: Arc<state::ServerState>, period: Duration) {
    handle.spawn(cleanup_loop(state, period));
}

async fn tcp_event_loop("""),("        handle.spawn(cleanup_loop(state, cleanup_interval));","        spawn_cleanup(&handle, state, cleanup_interval);"),("        handle.spawn(cleanup_loop(state, cleanup_interval));","        spawn_cleanup(&handle, state, cleanup_interval);"))
# 3 callback
sub("utils/callback.rs",("""        if let Some(callback) = self.take_callback(id) {
            callback(input)
        }""","""        match self.callbacks.remove(&id) {
            Some(callback) => callback(input),
            None => (),
        }"""))
sub("core/client/mod.rs",("""        // Update the last time we received a msg from the server
        state.lock().await.last_contact = Instant::now();

        if let (Some(header), Content::Reply(reply)) =
            (msg.parent_header.as_ref(), &msg.content)
        {
            state
                .lock()
                .await
                .callback_manager
                .invoke_callback(header.id, reply)
        }
    }
}""","""        handle_msg(&state, msg).await;
    }
}

async fn handle_msg(state: &Mutex<state::ClientState>, msg: crate::core::Msg) {
    let mut state = state.lock().await;
    // Update the last time we received a msg from the server
    state.last_contact = Instant::now();

    let id = match &msg.parent_header {
        Some(header) => header.id,
        None => return,
    };
    if let Content::Reply(reply) = &msg.content {
        state.callback_manager.invoke_callback(id, reply);
    }
}"""))
# 4 ask branches
sub("core/client/connected.rs",("""        // Send the msg and report back an error if it occurs
        let result = match self.send_msg(msg).await {
            Ok(_) => tokio::time::timeout(timeout, rx)
                .await
                .map_err(|_| AskError::Timeout),
            Err(x) => Err(AskError::from(x)),
        };

        // If we are no longer waiting for a reply, then the callback will never
        // be invoked and must not stay around
        if result.is_err() {
            self.state.lock().await.callback_manager.take_callback(id);
        }

        result?.map_err(|_| AskError::CallbackLost)?
    }
""","""        if let Err(x) = self.send_msg(msg).await {
            self.forget(id).await;
            return Err(AskError::from(x));
        }

        match tokio::time::timeout(timeout, rx).await {
            Ok(Ok(result)) => result,
            Ok(Err(_)) => Err(AskError::CallbackLost),
            Err(_) => {
                self.forget(id).await;
                Err(AskError::Timeout)
            }
        }
    }

    async fn forget(&self, id: u32) {
        let mut state = self.state.lock().await;
        let _ = state.callback_manager.take_callback(id);
    }
"""))
rsub("core/client/connected.rs", r"            \.await;\n\n        if let Err\(x\) = result \{\n            return Err\(From::from\(x\)\);\n        \}\n\n        match result\.unwrap\(\) \{", "            .await?;\n\n        match result {")
# 6 errorkind
rsub("utils/serializers/error_kind.rs", r"serde::Serializer::serialize_unit_variant\(\s*serializer,\s*\"ErrorKind\",\s*(\d+u32),\s*\"(\w+)\",\s*\)", r'(\1, "\2")')
sub("utils/serializers/error_kind.rs",("    match *kind {","    let (index, name) = index_and_name(*kind);\n    serializer.serialize_unit_variant(\"ErrorKind\", index, name)\n}\n\nfn index_and_name(kind: io::ErrorKind) -> (u32, &'static str) {\n    match kind {"))
rsub("utils/serializers/error_kind.rs", r"\(Field::(field\d+), variant\) => \{\s*match serde::de::VariantAccess::unit_variant\(variant\) \{.*?\};\s*serde::export::Ok\((io::ErrorKind::\w+)\)\s*\}", r"Field::\1 => \2,")
rsub("utils/serializers/error_kind.rs", r"            match match serde::de::EnumAccess::variant\(data\) \{.*?\n            \} \{\n(.*?)\n            \}\n        \}", r"            let (field, variant) = serde::de::EnumAccess::variant(data)?;\n            serde::de::VariantAccess::unit_variant(variant)?;\n            Ok(match field {\n\1\n            })\n        }")
# 8 nonce
rsub("core/transport/crypto/nonce/cache.rs", r"        // Register the nonce if provided, and then pass on to the underlying\n        // (en|de)crypter\n        if let Some\(nonce\) = associated_data.nonce_slice\(\) \{\n            self.register_nonce\(nonce\)\?;\n        \}\n        self.bicrypter.(en|de)crypt\(buffer, associated_data\)", r"        self.claim(associated_data)\n            .and_then(|_| self.bicrypter.\2crypt(buffer, associated_data))")
sub("core/transport/crypto/nonce/cache.rs",("    fn register_nonce<'a>(","""    /// Registers the nonce if there is one
    fn claim(&self, associated_data: &AssociatedData) -> Result<(), CryptError> {
        match associated_data.nonce_slice() {
            Some(nonce) => self.register_nonce(nonce).map(|_| ()),
            None => Ok(()),
        }
    }

    fn register_nonce<'a>("""))
# 14 content
sub("core/transport/wire/packet.rs",("Ok([self.metadata.to_vec()?, self.data.to_vec()].concat())","Ok(signed_content(&self.metadata.to_vec()?, &self.data))"),("#[derive(Serialize, Deserialize, Debug, Clone)]\npub(crate) struct Packet {","""/// The bytes of a packet that its signature covers
pub(crate) fn signed_content(metadata: &[u8], data: &[u8]) -> Vec<u8> {
    let mut content = Vec::with_capacity(metadata.len() + data.len());
    content.extend_from_slice(metadata);
    content.extend_from_slice(data);
    content
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub(crate) struct Packet {"""))
sub("core/transport/wire/output/encoder.rs",("""        metadata.to_vec().map(|md| {
            let sig = signer.sign(&[md, data.to_vec()].concat());
            Packet::new(metadata, sig, data.to_vec())
        })""","""        let content = crate::core::transport::wire::packet::signed_content(&metadata.to_vec()?, data);
        let signature = signer.sign(&content);
        Ok(Packet::new(metadata, signature, data.into()))"""))
# 16
rsub("core/event/tcp.rs", r"    loop \{\n        let tx_2 = tx.clone\(\);\n        let result = reader.read\(\).await;\n        if !super::process_inbound\(result, tx_2, on_inbound_tx.clone\(\)\).await \{\n            break;\n        \}\n    \}", "    while super::process_inbound(reader.read().await, tx.clone(), on_inbound_tx.clone()).await {}")
