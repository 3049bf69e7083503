XS="core/transport/auth/split.rs"; YS="core/transport/crypto/split.rs"; IOE="utils/serializers/io_error.rs"; MS="core/msg/mod.rs"; WM="core/transport/wire/mod.rs"; CT="core/msg/content/mod.rs"; AM="core/transport/auth/mod.rs"; CP="core/client/proc.rs"; CE="core/client/error.rs"
sub(XS,("""    let arc_self = Arc::new(authenticator);
    let arc_self_2 = Arc::clone(&arc_self);

    let s_half = SignerHalf { signer: arc_self };
    let v_half = VerifierHalf {
        verifier: arc_self_2,
    };
    (s_half, v_half)""","""    let verifier = Arc::new(authenticator);
    let signer = verifier.clone();
    (SignerHalf { signer }, VerifierHalf { verifier })"""),
("        self.verifier.verify(message, signature)","        let inner: &V = &self.verifier;\n        inner.verify(message, signature)"))
sub(YS,("""    let e_half = EncrypterHalf {
        encrypter: arc_self,
    };
    let d_half = DecrypterHalf {
        decrypter: arc_self_2,
    };
    (e_half, d_half)""","""    let halves = (
        EncrypterHalf {
            encrypter: arc_self_2,
        },
        DecrypterHalf {
            decrypter: arc_self,
        },
    );
    halves"""),
("        self.encrypter.new_encrypt_associated_data()","        let ad = Encrypter::new_encrypt_associated_data(self.encrypter.as_ref());\n        ad"))
sub(IOE,("""        if let Some(code) = self.os_code {
            io::Error::from_raw_os_error(code)
        } else {
            io::Error::new(self.error_kind, self.description)
        }""","""        let Self {
            description,
            os_code,
            error_kind,
        } = self;
        os_code
            .map(io::Error::from_raw_os_error)
            .unwrap_or_else(|| io::Error::new(error_kind, description))"""),
("""        let error_kind = x.kind();
        let os_code = x.raw_os_error();
        let description = format!("{}", x);

        Self {
            description,
            error_kind,
            os_code,
        }""","""        Self {
            description: x.to_string(),
            os_code: x.raw_os_error(),
            error_kind: x.kind(),
        }"""))
sub(MS,("""        Self {
            header: Header::default(),
            parent_header,
            content,
        }
    }

    pub fn to_vec""","""        let mut msg = Self::from(content);
        if let Some(header) = parent_header {
            msg.with_parent_header(header);
        }
        msg
    }

    pub fn to_vec"""),
("        serde_cbor::ser::to_vec(&self).map_err(MsgError::AssembleMsg)","        match serde_cbor::to_vec(self) {\n            Ok(bytes) => Ok(bytes),\n            Err(x) => Err(MsgError::AssembleMsg(x)),\n        }"),
("        serde_cbor::from_slice(slice).map_err(MsgError::DisassembleMsg)","        let msg: Self =\n            serde_cbor::from_slice(slice).map_err(MsgError::DisassembleMsg)?;\n        Ok(msg)"))
sub(WM,("""        let (signer, verifier) = auth::split::split(authenticator);
        let (encrypter, decrypter) = crypto::split::split(bicrypter);
        new_inbound_outbound_wires(
            transmission_size,
            packet_ttl,
            signer,
            verifier,
            encrypter,
            decrypter,
        )""","""        let (encrypter, decrypter) = crypto::split::split(bicrypter);
        let (signer, verifier) = auth::split::split(authenticator);
        (
            InboundWire::new(transmission_size, packet_ttl, verifier, decrypter),
            OutboundWire::new(transmission_size, signer, encrypter),
        )"""),
("""        self.input_processor
            .process(buf)
            .map_err(InboundWireError::InputProcessor)""","""        let Self {
            input_processor, ..
        } = self;
        match input_processor.process(buf) {
            Ok(done) => Ok(done),
            Err(x) => Err(InboundWireError::InputProcessor(x)),
        }"""),
("""        let output_processor =
            OutputProcessor::new(transmission_size, signer, encrypter);
        Self { output_processor }""","""        Self {
            output_processor: OutputProcessor::new(
                transmission_size,
                signer,
                encrypter,
            ),
        }"""))
sub(CT,("""        match self {
            Self::Request(x) => Some(x),
            Self::Reply(_) => None,
        }""","""        if let Self::Request(x) = self {
            return Some(x);
        }
        None"""))
sub(AM,("""    let mut mac = Hmac::<Sha256>::new_varkey(key).unwrap();
    mac.input(content);

    mac.verify(code).is_ok()""","""    mac_sha256(key, content).verify(code).is_ok()"""),
("""    let mut mac = Hmac::<Sha256>::new_varkey(key).unwrap();
    mac.input(content);

    let result = mac.result();
    let mut buffer = [0; 32];
    buffer.clone_from_slice(result.code().as_slice());
    buffer""","""    let code = mac_sha256(key, content).result().code();
    let mut buffer = Digest256Bits::default();
    buffer.copy_from_slice(&code[..]);
    buffer"""),
("pub fn sign_sha256(","""fn mac_sha256(key: &[u8], content: &[u8]) -> Hmac<Sha256> {
    let mut mac = Hmac::<Sha256>::new_varkey(key).unwrap();
    mac.input(content);
    mac
}

pub fn sign_sha256("""))
sub(CP,("""        Self {
            id: status.id,
            is_alive: status.is_alive,
            exit_code: status.exit_code,
        }""","""        let ProcStatusArgs {
            id,
            is_alive,
            exit_code,
        } = status;
        Self {
            id,
            is_alive,
            exit_code,
        }"""))
sub(CE,("""        match error {
            SendError::EncodingFailed => Self::EncodingFailed,
            SendError::SendFailed => Self::SendFailed,
        }""","""        if error == SendError::SendFailed {
            return Self::SendFailed;
        }
        Self::EncodingFailed"""))
