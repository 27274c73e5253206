//! One oracle for every listing: walked a page at a time, in either direction, it is the list.
use crate::core::*;
use snapchain::storage::db::PageOptions;

pub type Page = Result<(Vec<Vec<u8>>, Option<Vec<u8>>), String>;
pub struct Listing<'a> {
    pub name: String,
    pub both: bool,
    pub page: Box<dyn Fn(&PageOptions) -> Page + 'a>,
}
pub fn of<'a, E: std::fmt::Display, P>(name: impl Into<String>, f: impl Fn(&PageOptions) -> Result<P, E> + 'a, g: impl Fn(P) -> (Vec<Vec<u8>>, Option<Vec<u8>>) + 'a) -> Listing<'a> {
    Listing { name: name.into(), both: true, page: Box::new(move |o| f(o).map(&g).map_err(|e| e.to_string())) }
}
/// A listing of messages.
pub fn msgs<'a>(name: impl Into<String>, f: impl Fn(&PageOptions) -> Result<snapchain::storage::store::account::MessagesPage, snapchain::core::error::HubError> + 'a) -> Listing<'a> {
    of(name, f, |x| (x.messages.iter().map(|m| m.hash.clone()).collect(), x.next_page_token))
}
/// A listing of things told apart by their bytes.
pub fn rows<T: prost::Message>(v: &[T]) -> Vec<Vec<u8>> {
    v.iter().map(|x| x.encode_to_vec()).collect()
}
fn show(v: &[Vec<u8>]) -> String {
    let t: Vec<String> = v.iter().take(40).map(|x| hex::encode(&x[..x.len().min(6)])).collect();
    format!("{} of {t:?}", v.len())
}

/// Returns the unpaged list, once it has been found equal to its pages.
pub fn walk(sim: &mut Sim, at: &str, l: &Listing, r: &mut Rng) -> Vec<Vec<u8>> {
    let whole = match (l.page)(&PageOptions { page_size: None, page_token: None, reverse: false }) {
        Ok((v, _)) => v,
        Err(e) => {
            sim.violate("B08", "answers", format!("{at}: {} does not answer: {e}", l.name));
            return vec![];
        }
    };
    sim.count("oracle.B08");
    for reverse in [false, true] {
        if reverse && !l.both {
            continue;
        }
        let n = whole.len();
        let size = match r.below(6) {
            0 => 1,
            1 => n.max(1),
            2 => n + 1,
            3 => (n + 1) / 2 + 1,
            _ => r.range(1, 6) as usize,
        };
        let mut got = vec![];
        let mut tok = None;
        let mut over = None;
        let mut asked = 0;
        loop {
            asked += 1;
            match (l.page)(&PageOptions { page_size: Some(size), page_token: tok.clone(), reverse }) {
                Ok((v, t)) => {
                    if v.len() > size {
                        over = Some(v.len());
                    }
                    got.extend(v);
                    tok = t;
                }
                Err(e) => {
                    sim.violate("B08", "answers", format!("{at}: page {asked} of {}, size {size}, reverse {reverse}, is refused: {e}", l.name));
                    return whole;
                }
            }
            if tok.is_none() || asked > 3000 {
                break;
            }
        }
        if asked > 1 {
            sim.count(if reverse { "probe.multi_page_back" } else { "probe.multi_page" });
        }
        sim.check("B08", "page_size", over.is_none(), || format!("{at}: {} gave a page of {over:?} when {size} were asked for", l.name));
        sim.check("B08", "ends", tok.is_none(), || format!("{at}: {} of {n} items still has pages after {asked}, size {size}, reverse {reverse}", l.name));
        if reverse {
            got.reverse();
        }
        sim.check("B08", if reverse { "reverse_is_mirror" } else { "pages_are_the_list" }, got == whole, || {
            format!("{at}: {} by pages of {size}, reverse {reverse}: {}; the whole list is {}", l.name, show(&got), show(&whole))
        });
    }
    whole
}
