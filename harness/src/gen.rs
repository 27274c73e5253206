//! Builds signed messages, onchain events and name transfers without snapchain's own builders:
//! the hash, both signature schemes and the EIP-712 encodings are written out here, so that the
//! real validation code is judged against an independent construction.
use alloy_primitives::keccak256;
use alloy_signer::SignerSync;
use alloy_signer_local::PrivateKeySigner;
use ed25519_dalek::{Signer, SigningKey};
use prost::Message as _;
use snapchain::proto as p;
use snapchain::proto::message_data::Body;

pub const FC_EPOCH: u64 = 1_609_459_200;

pub fn signer(fid: u64, idx: u64) -> SigningKey {
    let h = blake3::hash(format!("signer/{fid}/{idx}").as_bytes());
    SigningKey::from_bytes(h.as_bytes())
}
pub fn pubkey(fid: u64, idx: u64) -> Vec<u8> {
    signer(fid, idx).verifying_key().to_bytes().to_vec()
}
pub fn eth(tag: &str, n: u64) -> PrivateKeySigner {
    let h = blake3::hash(format!("eth/{tag}/{n}").as_bytes());
    PrivateKeySigner::from_slice(h.as_bytes()).unwrap()
}
/// The account that owns `fid` after its `n`-th transfer.
pub fn custody(fid: u64, n: u64) -> PrivateKeySigner {
    eth(&format!("custody{fid}"), n)
}

pub fn message(fid: u64, ty: p::MessageType, ts: u32, body: Body, key: &SigningKey, network: p::FarcasterNetwork) -> p::Message {
    let data = p::MessageData { r#type: ty as i32, fid, timestamp: ts, network: network as i32, body: Some(body) };
    seal(data, key)
}
pub fn seal(data: p::MessageData, key: &SigningKey) -> p::Message {
    let hash = blake3::hash(&data.encode_to_vec()).as_bytes()[..20].to_vec();
    p::Message {
        signature: key.sign(&hash).to_bytes().to_vec(),
        signer: key.verifying_key().to_bytes().to_vec(),
        data: Some(data),
        hash,
        hash_scheme: p::HashScheme::Blake3 as i32,
        signature_scheme: p::SignatureScheme::Ed25519 as i32,
        data_bytes: None,
    }
}

fn word(n: u64) -> Vec<u8> {
    let mut v = vec![0u8; 24];
    v.extend_from_slice(&n.to_be_bytes());
    v
}
fn addr_word(a: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; 12];
    v.extend_from_slice(a);
    v
}
fn k(b: &[u8]) -> Vec<u8> {
    keccak256(b).to_vec()
}
fn cat(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}
fn digest(domain: Vec<u8>, structure: Vec<u8>) -> alloy_primitives::B256 {
    keccak256(cat(&[vec![0x19, 0x01], domain, structure]))
}
fn key_domain() -> Vec<u8> {
    k(&cat(&[
        k(b"EIP712Domain(string name,string version,uint256 chainId)"),
        k(b"Farcaster KeyAdd"),
        k(b"1"),
        word(1),
    ]))
}
fn sign(s: &PrivateKeySigner, h: &alloy_primitives::B256) -> Vec<u8> {
    s.sign_hash_sync(h).unwrap().as_bytes().to_vec()
}

#[derive(Clone, Debug)]
pub struct KeyAdd {
    pub fid: u64,
    pub key: SigningKey,
    pub scopes: Vec<i32>,
    pub ttl: u32,
    pub nonce: u32,
    pub deadline: u32,
    pub request_fid: u64,
}
pub fn key_add_hash(fid: u64, key: &[u8], key_type: u32, scopes: &[i32], ttl: u32, nonce: u32, deadline: u32) -> alloy_primitives::B256 {
    let scopes: Vec<u8> = scopes.iter().flat_map(|s| word(*s as u64)).collect();
    let st = k(&cat(&[
        k(b"KeyAdd(uint256 fid,bytes key,uint32 keyType,uint32[] scopes,uint32 ttl,uint32 nonce,uint256 deadline)"),
        word(fid),
        k(key),
        word(key_type as u64),
        k(&scopes),
        word(ttl as u64),
        word(nonce as u64),
        word(deadline as u64),
    ]));
    digest(key_domain(), st)
}
pub fn key_request_hash(request_fid: u64, key: &[u8], deadline: u64) -> alloy_primitives::B256 {
    let req = k(&cat(&[
        k(b"SignedKeyRequest(uint256 requestFid,bytes key,uint256 deadline)"),
        word(request_fid),
        k(key),
        word(deadline),
    ]));
    digest(key_domain(), req)
}
pub fn key_remove_hash(fid: u64, key: &[u8], nonce: u32, deadline: u32) -> alloy_primitives::B256 {
    let st = k(&cat(&[
        k(b"KeyRemove(uint256 fid,bytes key,uint32 nonce,uint256 deadline)"),
        word(fid),
        k(key),
        word(nonce as u64),
        word(deadline as u64),
    ]));
    digest(key_domain(), st)
}
pub fn recover(hash: &alloy_primitives::B256, sig: &[u8]) -> Option<Vec<u8>> {
    if sig.len() != 65 {
        return None;
    }
    let s = alloy_primitives::Signature::try_from(sig).ok()?;
    s.recover_address_from_prehash(hash).ok().map(|a| a.to_vec())
}
/// The signed request of an application inside a key's metadata: who asks, its signer, its proof, its deadline.
pub fn key_request(meta: &[u8]) -> Option<(u64, Vec<u8>, Vec<u8>, u64)> {
    let w = |i: usize| meta.get(i * 32..i * 32 + 32);
    let n = |i: usize| w(i).map(|b| u64::from_be_bytes(b[24..].try_into().unwrap()));
    let len = n(5)? as usize;
    Some((n(1)?, w(2)?[12..].to_vec(), meta.get(192..192 + len)?.to_vec(), n(4)?))
}
pub fn key_add_body(a: &KeyAdd, custody: &PrivateKeySigner, app: &PrivateKeySigner) -> p::KeyAddBody {
    let key = a.key.verifying_key().to_bytes().to_vec();
    let custody_signature = sign(custody, &key_add_hash(a.fid, &key, 1, &a.scopes, a.ttl, a.nonce, a.deadline));
    let rs = sign(app, &key_request_hash(a.request_fid, &key, a.deadline as u64));
    // abi.encode((uint256,address,bytes,uint256)): an offset to the dynamic tuple, its head, its tail
    let mut padded = rs.clone();
    while padded.len() % 32 != 0 {
        padded.push(0);
    }
    let metadata = cat(&[
        word(32),
        word(a.request_fid),
        addr_word(app.address().as_slice()),
        word(128),
        word(a.deadline as u64),
        word(rs.len() as u64),
        padded,
    ]);
    p::KeyAddBody {
        key,
        key_type: 1,
        custody_signature,
        deadline: a.deadline,
        nonce: a.nonce,
        metadata,
        metadata_type: 1,
        registration_tx_hash: vec![],
        scopes: a.scopes.clone(),
        ttl: a.ttl,
    }
}
pub fn key_remove_custody_body(fid: u64, key: &[u8], nonce: u32, deadline: u32, custody: &PrivateKeySigner) -> p::KeyRemoveBody {
    p::KeyRemoveBody { key: key.to_vec(), signature: sign(custody, &key_remove_hash(fid, key, nonce, deadline)), signature_type: 1, deadline, nonce }
}

pub fn b58(b: &[u8]) -> String {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut digits: Vec<u8> = vec![];
    for &x in b {
        let mut c = x as u32;
        for d in digits.iter_mut() {
            c += (*d as u32) << 8;
            *d = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            digits.push((c % 58) as u8);
            c /= 58;
        }
    }
    let mut s: String = b.iter().take_while(|x| **x == 0).map(|_| '1').collect();
    s.extend(digits.iter().rev().map(|d| A[*d as usize] as char));
    s
}

pub fn verification_sol_text(fid: u64, address: &[u8], block_hash: &[u8], network: i32) -> String {
    format!("fid: {} address: {} network: {} blockHash: {} protocol: {}", fid, b58(address), network, b58(block_hash), 1)
}
pub fn verification_eth_hash(fid: u64, address: &[u8], block_hash: &[u8], network: i32) -> alloy_primitives::B256 {
    let salt = hex::decode("f2d857f4a3edcb9b78b4d503bfe733db1e3f6cdc2b7971ee739626c97e86a558").unwrap();
    let domain = k(&cat(&[
        k(b"EIP712Domain(string name,string version,bytes32 salt)"),
        k(b"Farcaster Verify Ethereum Address"),
        k(b"2.0.0"),
        salt,
    ]));
    let st = k(&cat(&[
        k(b"VerificationClaim(uint256 fid,address address,bytes32 blockHash,uint8 network)"),
        word(fid),
        addr_word(address),
        block_hash.to_vec(),
        word(network as u64),
    ]));
    digest(domain, st)
}
/// A Solana wallet's proof that it belongs to `fid`.
pub fn verification_sol(fid: u64, wallet: &SigningKey, block_hash: &[u8], network: p::FarcasterNetwork) -> p::VerificationAddAddressBody {
    let address = wallet.verifying_key().to_bytes().to_vec();
    let text = verification_sol_text(fid, &address, block_hash, network as i32);
    p::VerificationAddAddressBody {
        address,
        claim_signature: wallet.sign(text.as_bytes()).to_bytes().to_vec(),
        block_hash: block_hash.to_vec(),
        verification_type: 0,
        chain_id: 0,
        protocol: p::Protocol::Solana as i32,
    }
}
/// An Ethereum wallet's proof that it belongs to `fid`.
pub fn verification_eth(fid: u64, wallet: &PrivateKeySigner, block_hash: &[u8], network: p::FarcasterNetwork) -> p::VerificationAddAddressBody {
    p::VerificationAddAddressBody {
        address: wallet.address().to_vec(),
        claim_signature: sign(wallet, &verification_eth_hash(fid, wallet.address().as_slice(), block_hash, network as i32)),
        block_hash: block_hash.to_vec(),
        verification_type: 0,
        chain_id: 0,
        protocol: p::Protocol::Ethereum as i32,
    }
}

// ------------------------------------------------------------------ chain events

pub fn onchain(ty: p::OnChainEventType, fid: u64, unix: u64, n: u64, body: p::on_chain_event::Body) -> p::OnChainEvent {
    let h = blake3::hash(format!("tx/{}/{fid}/{unix}/{n}", ty as i32).as_bytes());
    p::OnChainEvent {
        r#type: ty as i32,
        chain_id: 10,
        block_number: (unix.saturating_sub(1_600_000_000) * 2) as u32 + (n / 64) as u32,
        block_hash: vec![],
        block_timestamp: unix,
        transaction_hash: h.as_bytes().to_vec(),
        log_index: (n % 64) as u32,
        fid,
        tx_index: 0,
        version: 1,
        body: Some(body),
    }
}
pub fn rent(fid: u64, units: u32, unix: u64, n: u64) -> p::OnChainEvent {
    onchain(
        p::OnChainEventType::EventTypeStorageRent,
        fid,
        unix,
        n,
        p::on_chain_event::Body::StorageRentEventBody(p::StorageRentEventBody { payer: vec![7; 20], units, expiry: 0 }),
    )
}
pub fn id_register(fid: u64, to: Vec<u8>, transfer: bool, unix: u64, n: u64) -> p::OnChainEvent {
    onchain(
        p::OnChainEventType::EventTypeIdRegister,
        fid,
        unix,
        n,
        p::on_chain_event::Body::IdRegisterEventBody(p::IdRegisterEventBody {
            to,
            event_type: if transfer { p::IdRegisterEventType::Transfer } else { p::IdRegisterEventType::Register } as i32,
            from: vec![],
            recovery_address: vec![],
        }),
    )
}
pub fn signer_event(fid: u64, key: Vec<u8>, add: bool, unix: u64, n: u64) -> p::OnChainEvent {
    onchain(
        p::OnChainEventType::EventTypeSigner,
        fid,
        unix,
        n,
        p::on_chain_event::Body::SignerEventBody(p::SignerEventBody {
            key,
            event_type: if add { p::SignerEventType::Add } else { p::SignerEventType::Remove } as i32,
            metadata: vec![],
            key_type: 1,
            metadata_type: 1,
        }),
    )
}
pub fn tier(fid: u64, days: u64, unix: u64, n: u64) -> p::OnChainEvent {
    onchain(
        p::OnChainEventType::EventTypeTierPurchase,
        fid,
        unix,
        n,
        p::on_chain_event::Body::TierPurchaseEventBody(p::TierPurchaseBody { for_days: days, tier_type: p::TierType::Pro as i32, payer: vec![7; 20] }),
    )
}
pub fn channel_id(key: &str) -> Vec<u8> {
    keccak256(key.as_bytes()).to_vec()
}
pub fn channel_event(key: &str, ty: p::ChannelRegisterEventType, owner: Vec<u8>, expiry: u64, unix: u64, n: u64) -> p::OnChainEvent {
    let mut e = onchain(
        p::OnChainEventType::EventTypeChannelRegister,
        0,
        unix,
        n,
        p::on_chain_event::Body::ChannelRegisterEventBody(p::ChannelRegisterBody {
            channel_key: if ty == p::ChannelRegisterEventType::Transfer { String::new() } else { key.to_string() },
            expiry: if ty == p::ChannelRegisterEventType::Transfer { 0 } else { expiry },
            owner_address: if ty == p::ChannelRegisterEventType::Renew { vec![] } else { owner },
            event_type: ty as i32,
            label: channel_id(key),
        }),
    );
    e.chain_id = 8453;
    e
}
pub fn fname_transfer(id: u64, name: &str, fid: u64, from_fid: u64, unix: u64, owner: Vec<u8>) -> p::FnameTransfer {
    let h = blake3::hash(format!("fname/{id}/{name}").as_bytes());
    p::FnameTransfer {
        id,
        from_fid,
        proof: Some(p::UserNameProof {
            timestamp: unix,
            name: name.as_bytes().to_vec(),
            owner,
            signature: [h.as_bytes().as_slice(), h.as_bytes().as_slice(), &[27]].concat(),
            fid,
            r#type: p::UserNameType::UsernameTypeFname as i32,
        }),
    }
}

/// Tokens of the channel registrar that the worlds use.
pub const TOKENS: [&str; 4] = ["0", "7", "186488426504904464005912347", "115792089237316195423570985008687907853269984665640564039457584007913129639935"];
const REGISTRAR: &str = "0x7Dd80C661dED9bFC8D4440224A0b39b345a91BE4";
/// A decimal number below 2^256 as 32 bytes, written in the one way that counts.
pub fn decimal(s: &str) -> Option<[u8; 32]> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) {
        return None;
    }
    let mut n = [0u8; 32];
    for b in s.bytes() {
        let mut carry = (b - b'0') as u32;
        for x in n.iter_mut().rev() {
            let v = *x as u32 * 10 + carry;
            *x = v as u8;
            carry = v >> 8;
        }
        if carry > 0 {
            return None;
        }
    }
    Some(n)
}
/// The channel that liking this address follows, on a test network.
pub fn token_of(url: &str) -> Option<[u8; 32]> {
    decimal(url.strip_prefix("eip155:11155111/erc721:")?.strip_prefix(REGISTRAR)?.strip_prefix('/')?)
}
/// The address of a token, at times misspelt or of something else.
pub fn token_url(r: &mut crate::core::Rng) -> String {
    let t = TOKENS[r.below(4) as usize];
    let (mut ns, mut chain, mut std, mut reg, mut id) = ("eip155".to_string(), "11155111".to_string(), "erc721".to_string(), REGISTRAR.to_string(), t.to_string());
    let mut end = String::new();
    if r.chance(450) {
        match r.below(15) {
            0 => chain = "1".into(),
            1 => chain = format!("0{chain}"),
            2 => chain = format!("+{chain}"),
            3 => ns = "EIP155".into(),
            4 => std = "erc1155".into(),
            5 => reg = reg.to_lowercase(),
            6 => reg = reg[2..].into(),
            7 => reg = "0x5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed".into(),
            8 => id = format!("0{id}"),
            9 => id = format!("+{id}"),
            10 => id = format!("{id}0"),
            11 => end = "/".into(),
            12 => end = "/7".into(),
            13 => id = "115792089237316195423570985008687907853269984665640564039457584007913129639936".into(),
            _ => reg = format!("0x{}", reg[2..].to_uppercase()),
        }
    }
    format!("{ns}:{chain}/{std}:{reg}/{id}{end}")
}

/// The accounts of a run: mostly a few apart, else neighbours across the edges of a byte, where a range of keys can spill over.
pub fn accounts(r: &mut crate::core::Rng, n: u64) -> Vec<u64> {
    let (start, step) = *r.pick(&[(11, 7), (11, 7), (11, 7), (11, 7), (253, 1), (254, 1), (65533, 1), (16_777_214, 1), (511, 256), (4_294_967_290, 1)]);
    (0..n).map(|i| start + i * step).collect()
}
