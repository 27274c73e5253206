use crate::core::World;
use crate::runner::{Batch, Spec};
pub fn worlds() -> Vec<Box<dyn World>> {
    vec![Box::new(crate::ledger::Ledger), Box::new(crate::rules::Rules), Box::new(crate::zero::Zero), Box::new(crate::pool::Pool)]
}
fn b(world: &'static str, focus: &'static str, quick: u64, thorough: u64) -> Batch {
    Batch { world, focus, quick, thorough }
}
pub fn all() -> Vec<Spec> {
    ["A02", "A04", "A09", "A10", "B01", "B02", "B03", "B04", "B05", "B06", "B07", "B08", "B09", "B10", "B15", "B17", "G01"]
        .into_iter()
        .map(|id| Spec {
            id,
            batches: match id {
                "B08" => vec![b("ledger", id, 400, 30000), b("zero", id, 200, 10000)],
                "B02" => vec![b("ledger", id, 500, 30000), b("rules", id, 200, 10000)],
                _ => vec![b("ledger", id, 500, 40000)],
            },
        })
        .chain(["B16", "I01"].into_iter().map(|id| Spec { id, batches: vec![b("rules", id, 900, 60000)] }))
        .chain(["B11", "B12", "B13", "B14", "A07"].into_iter().map(|id| Spec { id, batches: vec![b("zero", id, 600, 40000)] }))
        .chain([Spec { id: "C01", batches: vec![b("pool", "C01", 900, 60000)] }])
        .collect()
}
pub fn spec(id: &str) -> Option<Spec> {
    all().into_iter().find(|s| s.id == id)
}
