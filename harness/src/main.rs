include!("../../sim/src/exports.rs");
mod crdt;
mod crypto;
mod frames;
mod hostile;
mod lang;
mod lsp;
mod mesh;
mod net;
mod pieces;
mod relay;
mod sched;
mod storage;
mod tasks;
mod tier;
mod util;

fn main() {
    let mut props = Vec::new();
    props.extend(storage::props());
    props.extend(mesh::props());
    props.extend(crdt::props());
    props.extend(sched::props());
    props.extend(relay::props());
    props.extend(crypto::props());
    props.extend(net::props());
    props.extend(frames::props());
    props.extend(hostile::props());
    props.extend(lang::props());
    props.extend(tasks::props());
    props.extend(tier::props());
    props.extend(lsp::props());
    props.extend(pieces::props());
    sim::main(&props);
}
