use rpcl2_harness::engine;
use rpcl2_harness::props::*;

fn main() {
    engine::main(|id, a| with_prop!(id, P => engine::command::<P>(a), engine::usage()))
}
