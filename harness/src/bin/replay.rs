//! Native replay of a counterexample: replay <harness> <value>...
fn main() {
    let mut a = std::env::args().skip(1);
    let h = a.next().expect("harness");
    *solana_program::ntt_model::replay::VALUES.lock().unwrap() =
        a.map(|v| v.parse::<u128>().expect("value")).collect();
    ntt_harness::find(&h).expect("no such harness")();
    println!("REPLAY: no violation");
}
