//! What a well-formed message is, written out from the protocol's rules without the system's own
//! validators, and a generator of messages that sit on those rules' edges.
use crate::core::Rng;
use crate::gen;
use alloy_primitives::keccak256;
use ed25519_dalek::{Signature, SigningKey, VerifyingKey};
use prost::Message as _;
use snapchain::proto as p;
use snapchain::proto::message_data::Body;

/// Where and when a message is judged.
#[derive(Clone, Copy, Debug)]
pub struct At {
    pub net: p::FarcasterNetwork,
    /// the block's time, Unix seconds
    pub unix: u64,
    pub pro: bool,
}

/// When each version of the rules took over, Unix seconds.
pub const MAINNET: [(u64, u32); 21] = [
    (0, 0),
    (1747333800, 1),
    (1747352400, 2),
    (1747356000, 3),
    (1747417200, 4),
    (1750093200, 5),
    (1752685200, 6),
    (1756141200, 7),
    (1756918800, 8),
    (1757523600, 9),
    (1758733200, 10),
    (1759942800, 11),
    (1759942800, 12),
    (1759942800, 13),
    (1761757200, 14),
    (1765386000, 15),
    (1778173200, 16),
    (1780592400, 17),
    (1782147600, 18),
    (1785160800, 19),
    (1786640400, 20),
];
pub const TESTNET: [(u64, u32); 17] = [
    (0, 0),
    (1748970000, 5),
    (1752099060, 6),
    (1755291600, 7),
    (1755709200, 8),
    (1756918800, 9),
    (1757523600, 10),
    (1758733200, 11),
    (1758763200, 12),
    (1758906000, 13),
    (1761152400, 14),
    (1764783794, 15),
    (1777406400, 16),
    (1779382800, 17),
    (1781283600, 18),
    (1784124000, 19),
    (1786035600, 20),
];
pub fn version(net: p::FarcasterNetwork, unix: u64) -> u32 {
    let t: &[(u64, u32)] = match net {
        p::FarcasterNetwork::Mainnet => &MAINNET,
        p::FarcasterNetwork::Testnet => &TESTNET,
        _ => return 21,
    };
    t.iter().filter(|x| x.0 <= unix).last().unwrap().1
}

type R = Result<(), &'static str>;
fn need(ok: bool, why: &'static str) -> R {
    if ok {
        Ok(())
    } else {
        Err(why)
    }
}
fn cast_id(c: &p::CastId) -> R {
    need(c.fid != 0, "cast id fid 0")?;
    need(c.hash.len() == 20, "cast id hash length")
}
fn url(s: &str) -> R {
    need(!s.is_empty() && s.len() <= 256, "url length")
}
fn alnum_lower(c: u8) -> bool {
    c.is_ascii_digit() || c.is_ascii_lowercase()
}
pub fn fname(s: &str) -> R {
    need(!s.is_empty() && s.len() <= 16, "name length")?;
    label(s)
}
fn label(s: &str) -> R {
    let b = s.as_bytes();
    need(!b.is_empty() && b.len() <= 16, "label length")?;
    need(alnum_lower(b[0]), "label start")?;
    need(b.iter().all(|c| alnum_lower(*c) || *c == b'-'), "label characters")
}
pub fn ens(s: &str) -> R {
    let parts: Vec<&str> = s.split('.').collect();
    need(parts.len() == 2 && parts[1] == "eth", "not name.eth")?;
    need(s.len() <= 20, "name length")?;
    label(parts[0])
}
pub fn basename(s: &str) -> R {
    let parts: Vec<&str> = s.split('.').collect();
    need(parts.len() == 3 && parts[1] == "base" && parts[2] == "eth", "not name.base.eth")?;
    need(s.len() <= 25, "name length")?;
    label(parts[0])
}
/// "geo:lat,long", two decimals each.
pub fn location(s: &str) -> R {
    if s.is_empty() {
        return Ok(());
    }
    fn part(s: &str, most: usize, limit: i64) -> R {
        let (neg, t) = match s.strip_prefix('-') {
            Some(t) => (-1, t),
            None => (1, s),
        };
        let (a, b) = t.split_once('.').ok_or("no decimals")?;
        need(!a.is_empty() && a.len() <= most && a.bytes().all(|c| c.is_ascii_digit()), "whole degrees")?;
        need(b.len() == 2 && b.bytes().all(|c| c.is_ascii_digit()), "two decimals")?;
        let cents = neg * (a.parse::<i64>().unwrap() * 100 + b.parse::<i64>().unwrap());
        need(cents.abs() <= limit * 100, "degrees out of range")
    }
    let t = s.strip_prefix("geo:").ok_or("no geo:")?;
    let (lat, long) = t.split_once(',').ok_or("no comma")?;
    part(lat, 2, 90)?;
    part(long, 3, 180)
}
pub fn twitter(s: &str) -> R {
    need(s.len() <= 15, "length")?;
    need(s.bytes().all(|c| alnum_lower(c) || c == b'_'), "characters")
}
pub fn github(s: &str) -> R {
    let b = s.as_bytes();
    need(!b.is_empty() && b.len() <= 38, "length")?;
    need(b[0].is_ascii_alphanumeric(), "start")?;
    need(b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-'), "characters")?;
    need(!s.contains("--"), "two hyphens")
}
pub fn checksum(a: &[u8]) -> String {
    let low = hex::encode(a);
    let h = keccak256(low.as_bytes());
    let mut s = String::from("0x");
    for (i, c) in low.chars().enumerate() {
        let n = if i % 2 == 0 { h[i / 2] >> 4 } else { h[i / 2] & 15 };
        s.push(if n >= 8 { c.to_ascii_uppercase() } else { c });
    }
    s
}
pub fn primary_eth(s: &str) -> R {
    if s.is_empty() {
        return Ok(());
    }
    let t = s.strip_prefix("0x").ok_or("no 0x")?;
    need(s.len() == 42, "length")?;
    let a = hex::decode(t).map_err(|_| "not hex")?;
    need(checksum(&a) == s, "checksum")
}
fn un58(s: &str) -> Option<Vec<u8>> {
    const A: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out: Vec<u8> = vec![];
    for c in s.chars() {
        let mut v = A.find(c)? as u32;
        for b in out.iter_mut() {
            v += *b as u32 * 58;
            *b = v as u8;
            v >>= 8;
        }
        while v > 0 {
            out.push(v as u8);
            v >>= 8;
        }
    }
    out.extend(s.chars().take_while(|c| *c == '1').map(|_| 0));
    out.reverse();
    Some(out)
}
pub fn primary_sol(s: &str) -> R {
    if s.is_empty() {
        return Ok(());
    }
    need(un58(s).is_some_and(|v| v.len() == 32), "not 32 bytes of base58")
}
/// namespace:chain/kind:reference[/id]
pub fn token(s: &str) -> R {
    if s.is_empty() {
        return Ok(());
    }
    need(s.len() <= 256, "length")?;
    let parts: Vec<&str> = s.split('/').collect();
    need(parts.len() == 2 || parts.len() == 3, "parts")?;
    let (ns, chain) = parts[0].split_once(':').ok_or("no chain")?;
    need(!ns.is_empty() && ns.bytes().all(alnum_lower), "namespace")?;
    need(!chain.is_empty() && chain.bytes().all(|c| c.is_ascii_alphanumeric()), "chain")?;
    let (kind, reference) = parts[1].split_once(':').ok_or("no reference")?;
    need((3..=8).contains(&kind.len()) && kind.bytes().all(|c| alnum_lower(c) || c == b'-'), "kind")?;
    need(
        (1..=128).contains(&reference.len()) && reference.bytes().all(|c| c.is_ascii_alphanumeric() || b"-.%".contains(&c)),
        "reference",
    )?;
    if let Some(id) = parts.get(2) {
        need(!id.is_empty() && id.bytes().all(|c| c.is_ascii_alphanumeric()), "token id")?;
    }
    Ok(())
}
fn user_data(b: &p::UserDataBody, v: u32, pro: bool) -> R {
    let s = b.value.as_str();
    match b.r#type {
        1 | 3 | 5 => need(s.len() <= 256, "profile text length"),
        2 => need(s.len() <= 32, "display name length"),
        6 => {
            if s.is_empty() {
                Ok(())
            } else if s.ends_with(".base.eth") {
                basename(s)
            } else if s.ends_with(".eth") {
                ens(s)
            } else {
                fname(s)
            }
        }
        7 => location(s),
        8 => twitter(s),
        9 => github(s),
        10 => {
            need(pro, "banner without pro")?;
            need(s.len() <= 256, "banner length")
        }
        11 => {
            need(v >= 5, "primary address too early")?;
            primary_eth(s)
        }
        12 => {
            need(v >= 5, "primary address too early")?;
            primary_sol(s)
        }
        13 => {
            need(v >= 10, "profile token too early")?;
            token(s)
        }
        14 => {
            need(v >= 17, "live-at too early")?;
            need(s.len() <= 256, "live-at length")
        }
        _ => Err("unknown profile field"),
    }
}
fn cast_add(b: &p::CastAddBody, ts: u32, v: u32, pro: bool) -> R {
    let n = b.text.len();
    match b.r#type {
        0 => need(n <= 320, "cast length")?,
        1 => need(n > 320 && n <= 1024, "long cast length")?,
        2 => {
            need(pro, "10k cast without pro")?;
            need(n > 1024 && n <= 10_000, "10k cast length")?
        }
        _ => return Err("cast type"),
    }
    need(b.embeds.len() <= if pro || v >= 20 { 4 } else { 2 }, "embeds")?;
    if ts < 73_612_800 {
        need(b.embeds_deprecated.len() <= 2, "old embeds")?;
    } else {
        need(b.embeds_deprecated.is_empty(), "old embeds too late")?;
    }
    need(b.mentions.len() <= 10, "mentions")?;
    need(b.mentions.len() == b.mentions_positions.len(), "mention positions count")?;
    need(b.embeds.is_empty() || b.embeds_deprecated.is_empty(), "both kinds of embeds")?;
    need(n > 0 || !b.embeds.is_empty() || !b.embeds_deprecated.is_empty() || !b.mentions.is_empty(), "empty cast")?;
    for e in &b.embeds {
        match &e.embed {
            Some(p::embed::Embed::Url(u)) => url(u)?,
            Some(p::embed::Embed::CastId(c)) => cast_id(c)?,
            None => return Err("empty embed"),
        }
    }
    for u in &b.embeds_deprecated {
        url(u)?;
    }
    need(b.mentions.iter().all(|f| *f != 0), "mention of 0")?;
    need(b.mentions_positions.iter().all(|x| *x as usize <= n), "mention past the text")?;
    need(b.mentions_positions.windows(2).all(|w| w[0] <= w[1]), "mentions out of order")?;
    match &b.parent {
        Some(p::cast_add_body::Parent::ParentCastId(c)) => cast_id(c),
        Some(p::cast_add_body::Parent::ParentUrl(u)) => url(u),
        None => Ok(()),
    }
}
fn link_type(s: &str) -> R {
    need(!s.is_empty() && s.len() <= 8, "link type length")
}
fn verification(b: &p::VerificationAddAddressBody, fid: u64, net: i32) -> R {
    match b.protocol {
        0 => {
            need(b.address.len() == 20, "address length")?;
            need(b.block_hash.len() == 32, "block hash length")?;
            need(b.claim_signature.len() <= 2048, "claim length")?;
            need([0, 1, 5, 10, 420].contains(&b.chain_id), "chain")?;
            match b.verification_type {
                0 => {
                    let s = &b.claim_signature;
                    need(s.len() == 65, "claim length")?;
                    let h = gen::verification_eth_hash(fid, &b.address, &b.block_hash, net);
                    let sig = alloy_primitives::Signature::from_bytes_and_parity(&s[..64], !matches!(s[64], 0 | 27));
                    let who = sig.recover_address_from_prehash(&h).map_err(|_| "claim signature")?;
                    need(who.as_slice() == b.address.as_slice(), "claim by another")
                }
                1 => Ok(()),
                _ => Err("verification type"),
            }
        }
        1 => {
            need(b.address.len() == 32, "address length")?;
            need(b.block_hash.len() == 32, "block hash length")?;
            need(b.claim_signature.len() == 64, "claim length")?;
            let t = gen::verification_sol_text(fid, &b.address, &b.block_hash, net);
            let k = VerifyingKey::try_from(b.address.as_slice()).map_err(|_| "not a key")?;
            let s = Signature::from_slice(&b.claim_signature).map_err(|_| "claim signature")?;
            need(k.verify_strict(t.as_bytes(), &s).is_ok(), "claim signature")
        }
        _ => Err("protocol"),
    }
}
fn channel(id: &[u8], v: u32) -> R {
    need(v >= 21, "channels too early")?;
    need(id.len() == 32, "channel id length")
}
/// The kind of message a body makes.
pub fn kinds(b: &Body) -> &'static [i32] {
    match b {
        Body::CastAddBody(_) => &[1],
        Body::CastRemoveBody(_) => &[2],
        Body::ReactionBody(_) => &[3, 4],
        Body::LinkBody(_) => &[5, 6],
        Body::VerificationAddAddressBody(_) => &[7],
        Body::VerificationRemoveBody(_) => &[8],
        Body::UserDataBody(_) => &[11],
        Body::UsernameProofBody(_) => &[12],
        Body::FrameActionBody(_) => &[13],
        Body::LinkCompactStateBody(_) => &[14],
        Body::LendStorageBody(_) => &[15],
        Body::KeyAddBody(_) => &[16],
        Body::KeyRemoveBody(_) => &[17],
        Body::ChannelUpdateBody(_) => &[18],
        Body::ChannelMemberBody(_) => &[19],
        Body::ChannelPinBody(_) => &[20],
        Body::ChannelModerateBody(_) => &[21],
    }
}
fn body(d: &p::MessageData, a: &At, v: u32) -> R {
    let block = a.unix - gen::FC_EPOCH;
    match d.body.as_ref() {
        None => Ok(()),
        Some(Body::CastAddBody(b)) => cast_add(b, d.timestamp, v, a.pro),
        Some(Body::CastRemoveBody(b)) => need(b.target_hash.len() == 20, "target hash length"),
        Some(Body::ReactionBody(b)) => {
            need((1..=2).contains(&b.r#type), "reaction type")?;
            match &b.target {
                Some(p::reaction_body::Target::TargetCastId(c)) => cast_id(c),
                Some(p::reaction_body::Target::TargetUrl(u)) => url(u),
                None => Err("no target"),
            }
        }
        Some(Body::LinkBody(b)) => {
            link_type(&b.r#type)?;
            match &b.target {
                Some(p::link_body::Target::TargetFid(f)) => need(*f != 0, "target 0"),
                None => Err("no target"),
            }
        }
        Some(Body::LinkCompactStateBody(b)) => {
            link_type(&b.r#type)?;
            need(!b.target_fids.is_empty(), "no targets")?;
            need(b.target_fids.iter().all(|f| *f != 0), "target 0")
        }
        Some(Body::UserDataBody(b)) => user_data(b, v, a.pro),
        Some(Body::UsernameProofBody(b)) => {
            let name = std::str::from_utf8(&b.name);
            match b.r#type {
                2 if v < 5 => Ok(()),
                2 => ens(name.map_err(|_| "name not text")?),
                3 => {
                    need(v >= 5, "basename too early")?;
                    basename(name.map_err(|_| "name not text")?)
                }
                _ => Err("name type"),
            }
        }
        Some(Body::VerificationAddAddressBody(b)) => verification(b, d.fid, d.network),
        Some(Body::VerificationRemoveBody(b)) => match b.protocol {
            0 => need(b.address.len() == 20, "address length"),
            1 => need(b.address.len() == 32, "address length"),
            _ => Err("protocol"),
        },
        Some(Body::FrameActionBody(b)) => {
            need(b.button_index <= 5, "button")?;
            need(!b.url.is_empty() && b.url.len() <= 1024, "frame url length")?;
            need(b.input_text.len() <= 256, "input length")?;
            need(b.state.len() <= 4096, "state length")?;
            need(b.transaction_id.len() <= 256, "transaction id length")?;
            need(b.address.len() <= 64, "address length")?;
            b.cast_id.as_ref().map(cast_id).unwrap_or(Ok(()))
        }
        Some(Body::LendStorageBody(b)) => {
            need(d.timestamp as u64 + 600 >= block, "backdated lend")?;
            need((0..=2).contains(&b.unit_type), "unit type")?;
            need(b.num_units <= 5000, "too many units")
        }
        Some(Body::KeyAddBody(b)) => {
            need(b.key.len() == 32, "key length")?;
            need(b.key_type == 1, "key type")?;
            need(b.deadline != 0, "deadline")?;
            need(b.ttl != 0 && b.ttl <= 90 * 86_400, "ttl")?;
            need(b.metadata_type == 1, "metadata type")?;
            need(!b.metadata.is_empty(), "metadata")?;
            need(!b.scopes.is_empty() && b.scopes.len() <= 16, "scopes")?;
            need(b.scopes.iter().all(|s| (1..=8).contains(s) || (11..=15).contains(s)), "scope")
        }
        Some(Body::KeyRemoveBody(b)) => {
            need(b.key.len() == 32, "key length")?;
            need(b.signature_type == 1 || b.signature_type == 2, "signature type")?;
            need(b.deadline != 0, "deadline")
        }
        Some(Body::ChannelUpdateBody(b)) => {
            channel(&b.channel_id, v)?;
            need(b.casting_mode.is_none_or(|m| p::CastingMode::try_from(m).is_ok()), "casting mode")?;
            need(b.membership_mode.is_none_or(|m| p::MembershipMode::try_from(m).is_ok()), "membership mode")
        }
        Some(Body::ChannelMemberBody(b)) => {
            channel(&b.channel_id, v)?;
            need(b.fid != 0 && b.fid <= u32::MAX as u64, "member fid")?;
            need(b.action != 0 && p::ChannelMemberAction::try_from(b.action).is_ok(), "member action")
        }
        Some(Body::ChannelPinBody(b)) => {
            channel(&b.channel_id, v)?;
            need(b.cast_hash.is_empty() || b.cast_hash.len() == 20, "pin hash length")
        }
        Some(Body::ChannelModerateBody(b)) => {
            channel(&b.channel_id, v)?;
            need(b.cast_hash.len() == 20, "moderated hash length")?;
            need(b.action != 0 && p::ChannelModerateAction::try_from(b.action).is_ok(), "moderate action")
        }
    }
}
/// Whether a message is well formed for its kind, signed, and meant for this network at this time.
pub fn judge(m: &p::Message, a: &At) -> R {
    let v = version(a.net, a.unix);
    let (bytes, d) = match (&m.data_bytes, &m.data) {
        (Some(b), given) => {
            let d = p::MessageData::decode(b.as_slice()).map_err(|_| "bytes are not a message")?;
            need(!b.is_empty(), "no data")?;
            need(given.as_ref().is_none_or(|g| *g == d), "data is not what the bytes say")?;
            (b.clone(), d)
        }
        (None, Some(d)) => (d.encode_to_vec(), d.clone()),
        _ => return Err("no data"),
    };
    let most = match d.r#type {
        14 if v >= 5 => 65_536,
        1 if v >= 5 && a.pro => 16_384,
        12 if v >= 15 => 16_384,
        _ => 2048,
    };
    need(bytes.len() <= most, "too long")?;
    need((1..=3).contains(&d.network), "network")?;
    need(a.net != p::FarcasterNetwork::Mainnet || d.network == 1, "another network's message")?;
    need(m.hash_scheme == 1, "hash scheme")?;
    need(blake3::hash(&bytes).as_bytes()[..20] == m.hash[..], "hash")?;
    need(m.signature_scheme == 1, "signature scheme")?;
    let s = Signature::from_slice(&m.signature).map_err(|_| "signature length")?;
    let k = VerifyingKey::try_from(m.signer.as_slice()).map_err(|_| "signer")?;
    need(k.verify_strict(&m.hash, &s).is_ok(), "signature")?;
    if v >= 6 {
        need(d.timestamp as u64 <= a.unix - gen::FC_EPOCH + 600, "from the future")?;
    }
    body(&d, a, v)
}

/// What the names service signs for a transfer.
pub fn name_hash(b: &p::UserNameProof) -> alloy_primitives::B256 {
    let k = |b: &[u8]| keccak256(b).to_vec();
    let n = |x: u64| [vec![0u8; 24], x.to_be_bytes().to_vec()].concat();
    let contract = hex::decode("e3be01d99baa8db9905b33a3ca391238234b79d1").unwrap();
    let domain = k(&[
        k(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)"),
        k(b"Farcaster name verification"),
        k(b"1"),
        n(1),
        [vec![0; 12], contract].concat(),
    ]
    .concat());
    let owner = [vec![0; 32 - b.owner.len().min(32)], b.owner.clone()].concat();
    let st = k(&[k(b"UserNameProof(string name,uint256 timestamp,address owner)"), k(&b.name), n(b.timestamp), owner].concat());
    keccak256([vec![0x19, 0x01], domain, st].concat())
}
/// Whether a name transfer counts on this network.
pub fn transfer(t: &p::FnameTransfer, net: p::FarcasterNetwork, service: &[u8]) -> R {
    let b = t.proof.as_ref().ok_or("no proof")?;
    need(std::str::from_utf8(&b.name).is_ok(), "name not text")?;
    need(b.owner.len() == 20, "owner length")?;
    if net == p::FarcasterNetwork::Devnet {
        return Ok(());
    }
    let s = &b.signature;
    need(s.len() == 65, "signature length")?;
    let sig = alloy_primitives::Signature::from_bytes_and_parity(&s[..64], !matches!(s[64], 0 | 27));
    let who = sig.recover_address_from_prehash(&name_hash(b)).map_err(|_| "signature")?;
    need(who.as_slice() == service, "signed by another")
}

// ---------------------------------------------------------------- generation

/// A text of exactly `n` bytes, not always of one byte per character.
pub fn text(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let wide = r.chance(300);
    while s.len() < n {
        let left = n - s.len();
        if wide && left >= 3 && r.chance(400) {
            s.push(*r.pick(&['é', '界', 'ß']));
            if s.len() > n {
                s.pop();
            }
        } else {
            s.push((b'a' + r.below(26) as u8) as char);
        }
    }
    s
}
/// A length around a limit.
fn edge(r: &mut Rng, max: usize) -> usize {
    match r.below(9) {
        0 => 0,
        1 => 1,
        2 => max - 1,
        3 => max,
        4 => max + 1,
        5 => max + 1 + r.below(8) as usize,
        _ => r.range(1, max.min(40) as u64) as usize,
    }
}
/// Mostly `good`, sometimes one off.
fn len(r: &mut Rng, good: usize) -> usize {
    match r.below(12) {
        0 => good - 1,
        1 => good + 1,
        2 => 0,
        _ => good,
    }
}
fn id(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => u32::MAX as u64 + 1,
        2 => u64::MAX,
        _ => r.range(1, 60),
    }
}
fn a_cast_id(r: &mut Rng) -> p::CastId {
    let n = len(r, 20);
    p::CastId { fid: id(r), hash: r.bytes(n) }
}
fn a_url(r: &mut Rng) -> String {
    let n = edge(r, 256);
    text(r, n)
}
fn one_of(r: &mut Rng, v: &[&str]) -> String {
    r.pick(v).to_string()
}
fn a_label(r: &mut Rng, most: usize) -> String {
    let n = match r.below(6) {
        0 => most,
        1 => most + 1,
        2 => 1,
        _ => r.range(1, most as u64) as usize,
    };
    let mut s: Vec<u8> = (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789-")).collect();
    if r.chance(800) && !s.is_empty() {
        s[0] = b'a' + r.below(26) as u8;
    }
    if r.chance(120) && !s.is_empty() {
        let i = r.below(s.len() as u64) as usize;
        s[i] = *r.pick(b"A_. !Z");
    }
    String::from_utf8(s).unwrap()
}
pub fn a_name(r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 => a_label(r, 16) + ".eth",
        2 | 3 => a_label(r, 16) + ".base.eth",
        4 => one_of(r, &["", ".eth", ".base.eth", "a.b.eth", "x.base.base.eth", "eth", "base.eth", "abcdefghijklmnop.eth", "abcdefghijklmnopq.eth", "abcdefghijklmnop.base.eth", "-a.eth", "-a", "a-", "A.eth", "a.ETH", "a..eth", "a.eth.", "9", "0-0", "é"]),
        _ => a_label(r, 16),
    }
}
fn user_data_value(r: &mut Rng, ty: i32) -> String {
    match ty {
        1 | 3 | 5 | 10 | 14 => a_url(r),
        2 => {
            let n = edge(r, 32);
            text(r, n)
        }
        6 => a_name(r),
        7 => {
            if r.chance(350) {
                one_of(r, &["", "geo:", "geo:0.00,0.00", "geo:90.00,180.00", "geo:-90.00,-180.00", "geo:90.01,0.00", "geo:-90.01,0.00", "geo:0.00,180.01", "geo:0.00,-180.01", "geo:1.0,1.00", "geo:1.00,1.000", "geo:1.00, 1.00", "Geo:1.00,1.00", "geo:001.00,1.00", "geo:1.00,0001.00", "geo:99.99,1.00", "geo:1.00,999.99", " geo:1.00,1.00", "geo:1.00,1.00 ", "geo:+1.00,1.00", "geo:1.00,1.00\n", "geo:-0.00,-0.00", "geo:.00,1.00", "geo:1,1", "geo:1.00;u=2,1.00"])
            } else {
                let lat = r.below(20_400) as i64 - 10_200;
                let long = r.below(38_000) as i64 - 19_000;
                let f = |x: i64| format!("{}{}.{:02}", if x < 0 { "-" } else { "" }, x.abs() / 100, x.abs() % 100);
                format!("geo:{},{}", f(lat), f(long))
            }
        }
        8 => match r.below(4) {
            0 => one_of(r, &["", "a_b", "_", "A", "a-b", "abcdefghijklmno", "abcdefghijklmnop", "a b", "a\n", "@a"]),
            _ => a_label(r, 15).replace('-', "_"),
        },
        9 => match r.below(3) {
            0 => one_of(r, &["", "a", "-", "-a", "a-", "a--b", "A-b", "a_b", "a-b-c", "abcdefghijabcdefghijabcdefghijabcdefgh", "abcdefghijabcdefghijabcdefghijabcdefghi", "abcdefghijabcdefghijabcdefghijabcdefghij", "a\n", "a---b"]),
            _ => a_label(r, 38),
        },
        11 => {
            let a = r.bytes(20);
            match r.below(8) {
                0 => format!("0x{}", hex::encode(&a)),
                1 => String::new(),
                2 => checksum(&a)[2..].to_string(),
                3 => checksum(&a) + "00",
                4 => checksum(&a[..19]),
                5 => checksum(&a).to_uppercase().replace("0X", "0x"),
                6 => checksum(&a).replace('0', "g"),
                _ => checksum(&a),
            }
        }
        12 => {
            let n = match r.below(6) {
                0 => 31,
                1 => 33,
                2 => 1,
                _ => 32,
            };
            let mut b = r.bytes(n);
            if r.chance(200) {
                b[0] = 0;
            }
            let s = gen::b58(&b);
            match r.below(6) {
                0 => String::new(),
                1 => s.replace(|c: char| c.is_ascii_uppercase(), "0"),
                2 => s + "1",
                _ => s,
            }
        }
        13 => match r.below(4) {
            0 => one_of(
                r,
                &["", "eip155:1/erc721:0x1/1", "eip155:1/erc20:0x1", "eip155:1", "eip155/erc20:0x1", "EIP155:1/erc20:0x1", "eip155:1/er:0x1", "eip155:1/erc721abc:0x1", "eip155:1/erc721abcd:0x1", "eip155:1/erc721:/1", "eip155:1/erc721:0x1/", "eip155:1/erc721:0x1/1/2", "eip155:1/erc721:0x_1/1", "eip155:1/erc721:a.b%c-d/1", "eip155:1/erc721:a:b/1", "eip155:1/erc721:0x1/1-2", ":1/erc721:0x1", "eip155:/erc721:0x1", "eip155:1:2/erc721:0x1", "eip155:1/erc721:0x1\n"],
            ),
            _ => {
                let n = match r.below(5) {
                    0 => 128,
                    1 => 129,
                    2 => 127,
                    _ => r.range(1, 60) as usize,
                };
                let m = match r.below(5) {
                    0 => Some(256 - 18 - n.min(230)),
                    1 => Some(256 - 17 - n.min(230)),
                    2 => Some(r.range(1, 30) as usize),
                    _ => None,
                };
                let mut s = format!("eip155:1/erc721:{}", "a".repeat(n));
                if let Some(m) = m {
                    s.push('/');
                    s.push_str(&"7".repeat(m));
                }
                s
            }
        },
        _ => {
            let n = edge(r, 20);
            text(r, n)
        }
    }
}
/// What a generated message is about.
pub struct Who<'a> {
    pub fid: u64,
    pub key: &'a SigningKey,
    pub net: p::FarcasterNetwork,
    /// the time to write messages around, Unix seconds
    pub unix: u64,
}
/// A message on the edge of some rule: well formed or not, as `judge` will say.
pub fn boundary(r: &mut Rng, w: &Who) -> p::Message {
    let now = (w.unix - gen::FC_EPOCH) as u32;
    let mut ts = match r.below(24) {
        0 => now + 599,
        1 => now + 600,
        2 => now + 601,
        3 => now + 100_000,
        4 => now - 600,
        5 => now - 601,
        6 => now - 599,
        7 => now.saturating_sub(r.below(100_000_000) as u32),
        _ => now - r.below(20) as u32,
    };
    let pick = r.below(100);
    let (mut ty, body) = match pick {
        0..=27 => {
            let ct = match r.below(12) {
                0 => 3,
                1 => -1,
                2 | 3 | 4 => 1,
                5 | 6 | 7 => 2,
                _ => 0,
            };
            let n = match (ct, r.below(8)) {
                (0, 0) => 320,
                (0, 1) => 321,
                (0, 2) => 319,
                (0, 3) => 0,
                (0, _) => r.range(1, 60) as usize,
                (1, 0) => 320,
                (1, 1) => 321,
                (1, 2) => 1024,
                (1, 3) => 1025,
                (1, _) => r.range(300, 1040) as usize,
                (2, 0) => 1024,
                (2, 1) => 1025,
                (2, 2) => 10_000,
                (2, 3) => 10_001,
                (2, _) => r.range(1000, 10_020) as usize,
                _ => r.range(0, 400) as usize,
            };
            let text = text(r, n);
            let ne = match r.below(10) {
                0 => 2,
                1 => 3,
                2 => 4,
                3 => 5,
                4 => 1,
                _ => 0,
            };
            let embeds = (0..ne)
                .map(|_| p::Embed {
                    embed: match r.below(12) {
                        0 => None,
                        1..=5 => Some(p::embed::Embed::CastId(p::CastId { fid: r.range(1, 50), hash: r.bytes(20) })),
                        6 => Some(p::embed::Embed::CastId(a_cast_id(r))),
                        7 => Some(p::embed::Embed::Url(a_url(r))),
                        _ => Some(p::embed::Embed::Url("https://a.b".into())),
                    },
                })
                .collect();
            let nd = if r.chance(120) { r.range(1, 3) } else { 0 };
            if nd > 0 && r.chance(700) {
                ts = match r.below(4) {
                    0 => 73_612_799,
                    1 => 73_612_800,
                    _ => 70_000_000,
                };
            }
            let embeds_deprecated = (0..nd).map(|_| if r.chance(700) { "x".into() } else { a_url(r) }).collect();
            let nm = match r.below(8) {
                0 => 10,
                1 => 11,
                2 | 3 => r.range(1, 5),
                _ => 0,
            } as usize;
            let mentions: Vec<u64> = (0..nm).map(|_| if r.chance(30) { 0 } else { r.range(1, 50) }).collect();
            let mut pos: Vec<u32> = (0..nm).map(|_| r.below(n as u64 + 1) as u32).collect();
            if r.chance(850) {
                pos.sort();
            }
            if nm > 0 && r.chance(150) {
                match r.below(4) {
                    0 => {
                        pos.pop();
                    }
                    1 => pos.push(n as u32),
                    2 => pos[nm - 1] = n as u32,
                    _ => pos[nm - 1] = n as u32 + 1,
                }
            }
            let parent = match r.below(6) {
                0 => Some(p::cast_add_body::Parent::ParentCastId(a_cast_id(r))),
                1 => Some(p::cast_add_body::Parent::ParentUrl(a_url(r))),
                _ => None,
            };
            (1, Some(Body::CastAddBody(p::CastAddBody { embeds_deprecated, mentions, text, mentions_positions: pos, embeds, r#type: ct, parent })))
        }
        28..=30 => {
            let n = len(r, 20);
            (2, Some(Body::CastRemoveBody(p::CastRemoveBody { target_hash: r.bytes(n) })))
        }
        31..=37 => {
            let target = match r.below(6) {
                0 => None,
                1 | 2 => Some(p::reaction_body::Target::TargetUrl(a_url(r))),
                _ => Some(p::reaction_body::Target::TargetCastId(a_cast_id(r))),
            };
            let t = if r.chance(120) { *r.pick(&[0, 3, -1]) } else { r.range(1, 2) as i32 };
            (3 + r.below(2) as i32, Some(Body::ReactionBody(p::ReactionBody { r#type: t, target })))
        }
        38..=43 => {
            let n = edge(r, 8);
            let t = if r.chance(500) { "follow".into() } else { text(r, n) };
            let target = if r.chance(80) { None } else { Some(p::link_body::Target::TargetFid(id(r))) };
            (5 + r.below(2) as i32, Some(Body::LinkBody(p::LinkBody { r#type: t, display_timestamp: None, target })))
        }
        44..=47 => {
            let n = edge(r, 8);
            let t = if r.chance(600) { "follow".into() } else { text(r, n) };
            let n = match r.below(8) {
                0 => 0,
                1 => 1000,
                2 => 1100,
                3 => 32_600,
                4 => 33_000,
                _ => r.range(1, 8),
            };
            // two bytes each on the wire
            let mut v: Vec<u64> = (0..n).map(|i| 200 + (i % 16_000)).collect();
            if !v.is_empty() && r.chance(100) {
                v[0] = 0;
            }
            (14, Some(Body::LinkCompactStateBody(p::LinkCompactStateBody { r#type: t, target_fids: v })))
        }
        48..=66 => {
            let t = match r.below(20) {
                0 => *r.pick(&[0, 4, 15, -1, 99]),
                _ => *r.pick(&[1, 2, 3, 5, 6, 6, 7, 7, 8, 9, 10, 11, 12, 13, 13, 14]),
            };
            let value = user_data_value(r, t);
            (11, Some(Body::UserDataBody(p::UserDataBody { r#type: t, value })))
        }
        67..=74 => {
            let t = *r.pick(&[2, 2, 2, 3, 3, 3, 0, 1, 4]);
            let mut name = match r.below(4) {
                0 => a_name(r),
                _ if t == 3 => a_label(r, 16) + ".base.eth",
                _ => a_label(r, 16) + ".eth",
            }
            .into_bytes();
            if r.chance(40) {
                name.push(0xff);
            }
            let sig = match r.below(8) {
                0 => 1900,
                1 => 2100,
                2 => 16_200,
                3 => 16_400,
                _ => 65,
            };
            let b = p::UserNameProof { timestamp: ts as u64, name, owner: r.bytes(20), signature: r.bytes(sig), fid: w.fid, r#type: t };
            (12, Some(Body::UsernameProofBody(b)))
        }
        75..=80 => {
            let n = len(r, 32);
            let bn = if r.chance(700) { 32 } else { n };
            let bh = r.bytes(bn);
            let mut b = if r.chance(500) {
                gen::verification_eth(w.fid, &gen::eth("form", r.below(9)), &bh, w.net)
            } else {
                gen::verification_sol(w.fid, &gen::signer(900, r.below(9)), &bh, w.net)
            };
            match r.below(14) {
                0 => b.claim_signature[7] ^= 1,
                1 => b.address[3] ^= 1,
                2 => {
                    b.address.pop();
                }
                3 => b.protocol = *r.pick(&[0, 1, 2]),
                4 => b.chain_id = *r.pick(&[1, 2, 5, 10, 420, 8453]),
                5 => b.verification_type = r.range(1, 2) as u32,
                6 => {
                    b.verification_type = 1;
                    let n = *r.pick(&[0, 100, 1800, 2048, 2049]);
                    b.claim_signature = r.bytes(n);
                }
                7 => b.claim_signature.push(0),
                8 => {
                    b.claim_signature.pop();
                }
                9 => b.claim_signature[63] ^= 0x80,
                10 => b.block_hash.push(1),
                _ => {}
            }
            (7, Some(Body::VerificationAddAddressBody(b)))
        }
        81..=83 => {
            let pr = *r.pick(&[0, 0, 0, 1, 1, 1, 2]);
            let n = len(r, if pr == 1 { 32 } else { 20 });
            (8, Some(Body::VerificationRemoveBody(p::VerificationRemoveBody { address: r.bytes(n), protocol: pr })))
        }
        84..=86 => {
            let big = r.chance(120);
            let mut l = |m: usize| {
                if r.chance(250) {
                    edge(r, m)
                } else {
                    m.min(4)
                }
            };
            let (a, b, c, d, e) = (l(1024), l(256), if big { 1500 } else { 3 }, l(256), l(64));
            let v = p::FrameActionBody {
                url: vec![b'u'; a],
                button_index: *r.pick(&[0, 1, 4, 5, 6]),
                cast_id: if r.chance(300) { Some(a_cast_id(r)) } else { None },
                input_text: vec![1; b],
                state: vec![2; c],
                transaction_id: vec![3; d],
                address: vec![4; e],
            };
            (13, Some(Body::FrameActionBody(v)))
        }
        87..=88 => {
            let b = p::LendStorageBody { to_fid: id(r), num_units: *r.pick(&[0, 1, 4999, 5000, 5001, u64::MAX]), unit_type: *r.pick(&[0, 1, 2, 2, 2, 3, -1]) };
            (15, Some(Body::LendStorageBody(b)))
        }
        89..=91 => {
            let k = len(r, 32);
            let ns = *r.pick(&[0, 1, 2, 3, 15, 16, 17]);
            let scopes = (0..ns)
                .map(|_| if r.chance(40) { *r.pick(&[0, 9, 10, 16, 17, 18, 19, 20, 21, 22, -1]) } else { *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15]) })
                .collect();
            let b = p::KeyAddBody {
                key: r.bytes(k),
                key_type: if r.chance(60) { 2 } else { 1 },
                custody_signature: r.bytes(65),
                deadline: if r.chance(60) { 0 } else { now + 60 },
                nonce: 1,
                metadata: if r.chance(60) { vec![] } else { r.bytes(64) },
                metadata_type: if r.chance(60) { 2 } else { 1 },
                registration_tx_hash: vec![],
                scopes,
                ttl: *r.pick(&[0, 1, 3600, 7_775_999, 7_776_000, 7_776_001, u32::MAX, 86_400, 86_400]),
            };
            (16, Some(Body::KeyAddBody(b)))
        }
        92 => {
            let k = len(r, 32);
            let b = p::KeyRemoveBody { key: r.bytes(k), signature: r.bytes(65), signature_type: r.below(4) as u32, deadline: if r.chance(150) { 0 } else { now + 60 }, nonce: 1 };
            (17, Some(Body::KeyRemoveBody(b)))
        }
        93..=98 => {
            let n = len(r, 32);
            let channel_id = r.bytes(n);
            let n = len(r, 20);
            let hash = r.bytes(n);
            match r.below(4) {
                0 => (
                    18,
                    Some(Body::ChannelUpdateBody(p::ChannelUpdateBody {
                        channel_id,
                        name: Some("x".into()),
                        casting_mode: *r.pick(&[None, None, Some(0), Some(1), Some(9), Some(-1)]),
                        membership_mode: *r.pick(&[None, None, Some(0), Some(1), Some(9), Some(-1)]),
                        ..Default::default()
                    })),
                ),
                1 => (19, Some(Body::ChannelMemberBody(p::ChannelMemberBody { channel_id, fid: *r.pick(&[0, 1, 7, u32::MAX as u64, u32::MAX as u64 + 1]), action: r.below(9) as i32 }))),
                2 => (20, Some(Body::ChannelPinBody(p::ChannelPinBody { channel_id, cast_hash: hash }))),
                _ => (21, Some(Body::ChannelModerateBody(p::ChannelModerateBody { channel_id, cast_hash: hash, action: r.below(5) as i32 }))),
            }
        }
        _ => (r.range(0, 22) as i32, None),
    };
    if r.chance(15) {
        // the kind does not go with the body
        ty = r.range(0, 22) as i32;
    }
    let network = match r.below(90) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 4,
        _ => w.net as i32,
    };
    let d = p::MessageData { r#type: ty, fid: w.fid, timestamp: ts, network, body };
    let mut m = gen::seal(d, w.key);
    match r.below(110) {
        0 => m.signature[9] ^= 4,
        1 => m.hash[4] ^= 4,
        2 => {
            m.hash.pop();
        }
        3 => m.hash_scheme = *r.pick(&[0, 2]),
        4 => m.signature_scheme = *r.pick(&[0, 2, 3]),
        5 => {
            m.signature.push(0);
        }
        6 => m.signature.clear(),
        7 => m.signer[0] ^= 1,
        8 | 9 => m.data_bytes = Some(m.data.as_ref().unwrap().encode_to_vec()),
        10 => {
            // a longer hash, properly signed
            use ed25519_dalek::Signer;
            m.hash = blake3::hash(&m.data.as_ref().unwrap().encode_to_vec()).as_bytes()[..*r.pick(&[19usize, 21, 32])].to_vec();
            m.signature = w.key.sign(&m.hash).to_bytes().to_vec();
        }
        11 => {
            m.data_bytes = Some(m.data.as_ref().unwrap().encode_to_vec());
            m.data.as_mut().unwrap().timestamp ^= 1;
        }
        12 => {
            // S + L: a second form of the same signature
            m.signature = malleate(&m.signature);
        }
        _ => {}
    }
    m
}
/// The same Ed25519 signature with the group order added to its scalar.
pub fn malleate(sig: &[u8]) -> Vec<u8> {
    const L: [u8; 32] = [
        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
    ];
    let mut v = sig.to_vec();
    let mut c = 0u16;
    for i in 0..32 {
        c += v[32 + i] as u16 + L[i] as u16;
        v[32 + i] = c as u8;
        c >>= 8;
    }
    v
}
