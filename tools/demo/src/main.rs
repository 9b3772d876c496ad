mod dexkit;
use dexkit::*;
use serum_dex::matching::Side;
fn main() {
    let mut w = W::new(Opt::default());
    report(w.place(0, order(Side::Ask, 5, 3, 1)), "ask");
    report(w.place(1, order(Side::Bid, 5, 2, 1002)), "bid");
    println!("{:?} {:?} {:?} {} {}", w.funds(0), w.funds(1), w.totals(), w.leaves(w.asks), w.events());
    report(w.crank(10, &[0, 1]), "crank");
    println!("{:?} {:?} {} {}", w.funds(0), w.funds(1), w.leaves(w.asks), w.events());
    let id = w.order_id(0, 0);
    report(w.cancel(0, Side::Ask, id), "cancel");
    report(w.settle(0, false) && w.settle(1, true), "settle");
    println!("{} {}", w.bal(w.coin_vault), w.bal(w.pc_vault));
}
