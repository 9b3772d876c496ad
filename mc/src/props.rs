//! The property table: which scenarios, instructions and aspects decide each property.
use crate::abs::Asp;
use crate::abs::Asp::*;
use crate::explore::Hook;
use crate::hooks;

pub enum How {
    /// exploration of operation sequences: (scenario, quick depth, thorough depth)
    Seq { kinds: &'static [&'static str], asps: &'static [Asp], hook: Option<Hook>, runs: Vec<(&'static str, usize, usize)> },
    /// exhaustive enumeration of cases by a dedicated module
    Special(fn(bool, std::time::Instant) -> crate::Special),
}

pub struct Prop {
    pub id: &'static str,
    pub parts: Vec<How>,
}

const ALL: &[&str] = &[];
const MATCHING: &[&str] = &["new", "take", "replace"];

const CONFORM: &[Asp] = &[
    Result, Fills, Book, Events, Ledger, Rebate, Slots, Tokens, Lamports, Deposits, Fees, Config, Seq, Foreign,
];
const EVERYTHING: &[Asp] = &[
    Result, Fills, Book, Events, Ledger, Rebate, Slots, Tokens, Lamports, Deposits, Fees, Config, Seq, Foreign, Solvent, Surplus, Claims, Locked, SlotMap,
    Tree, Uncrossed, RebateSum, Exit, Crank,
];
/// strangers may donate tokens to a vault
const NO_SURPLUS: &[Asp] = &[
    Result, Fills, Book, Events, Ledger, Rebate, Slots, Tokens, Lamports, Deposits, Fees, Config, Seq, Foreign, Solvent, Claims, Locked, SlotMap, Tree,
    Uncrossed, RebateSum,
];

fn seq(kinds: &'static [&'static str], asps: &'static [Asp], hook: Option<Hook>, runs: &'static [(&'static str, usize, usize)]) -> How {
    How::Seq { kinds, asps, hook, runs: runs.to_vec() }
}

/// every kind of history, at the depth that a second or so of search affords
const COMMON: &[(&str, usize, usize)] = &[
    ("core", 5, 6),
    ("deep", 7, 8),
    ("types", 4, 5),
    ("stp", 5, 6),
    ("take", 5, 6),
    ("replace", 5, 6),
    ("take:unit", 4, 5),
    ("widecids", 4, 5),
    ("shape:reuse", 4, 5),
    ("crank", 6, 7),
    ("cids", 5, 6),
    ("cids:neg", 5, 6),
    ("close", 7, 8),
    ("life", 7, 8),
    ("fees", 6, 7),
    ("funds", 4, 5),
    ("expiry", 6, 7),
    ("expiry:far", 5, 6),
    ("expirytypes", 2, 2),
    ("replmany", 2, 2),
    ("big:book", 2, 3),
    ("big:events", 2, 3),
    ("limits", 2, 3),
    ("disabled", 10, 20),
    ("perm:oo", 7, 8),
    ("perm:p", 7, 8),
    ("perm:crank", 7, 8),
    ("perm:same", 6, 7),
    ("perm:same2", 6, 7),
    ("prune", 4, 5),
    ("fullbook:bids", 5, 6),
    ("fullbook:asks", 5, 6),
    ("fullq:a", 4, 5),
    ("fullq:b", 5, 6),
    ("fullq:c", 5, 6),
    ("fullq:d", 5, 6),
    ("fullq:prune", 5, 6),
    ("fullq:prune2", 5, 6),
    ("slots", 4, 5),
    ("shape:unit", 4, 5),
    ("shape:coinlot", 4, 5),
    ("shape:pclot", 4, 5),
    ("shape:bps", 4, 5),
    ("shape:price", 4, 5),
    ("shape:pricegap", 4, 5),
    ("shape:price50", 4, 5),
    ("shape:price57", 4, 5),
    ("shape:price62", 4, 5),
    ("shape:price63", 3, 3),
    ("shape:twin0", 4, 5),
    ("shape:twin3", 4, 5),
    ("shape:twinz", 4, 5),
    ("shape:qty", 4, 5),
    ("shape:ring", 4, 5),
    ("shape:ring2", 4, 5),
    ("shape:slots7", 4, 5),
    ("shape:slots31", 4, 5),
    ("shape:slots62", 4, 5),
    ("shape:slots126", 4, 5),
    ("shape:seq8", 4, 5),
    ("shape:seq16", 4, 5),
    ("shape:seq24", 4, 5),
    ("shape:seq32", 4, 5),
    ("shape:seq48", 4, 5),
    ("shape:seq62", 4, 5),
    ("ladder", 1, 2),
    ("ladder:self", 1, 2),
    ("ladder:then", 3, 3),
    ("ladder:selfthen", 3, 3),
    ("takegrid", 2, 3),
    ("replgrid", 1, 2),
    ("feegrid:ask", 1, 1),
    ("feegrid:bid", 1, 1),
    ("feegrid:stable", 1, 1),
    ("feegrid:bigask", 1, 1),
    ("feegrid:bigbid", 1, 1),
    ("tiers", 2, 3),
    ("tiers:stable", 2, 3),
    ("stable:0", 5, 6),
    ("huge", 2, 2),
    ("huge:lots", 2, 2),
];

/// the listed runs, plus every other kind of history
fn full(kinds: &'static [&'static str], asps: &'static [Asp], hook: Option<Hook>, runs: &'static [(&'static str, usize, usize)]) -> How {
    let mut v = runs.to_vec();
    for c in COMMON {
        match v.iter_mut().find(|r| r.0 == c.0) {
            Some(r) => *r = (r.0, r.1.max(c.1), r.2.max(c.2)),
            None => v.push(*c),
        }
    }
    How::Seq { kinds, asps, hook, runs: v }
}

pub fn table() -> Vec<Prop> {
    let p = |id, parts| Prop { id, parts };
    vec![
        // custody
        p(
            "D01",
            vec![full(
                ALL,
                &[Solvent, Surplus, Claims, Deposits, Tokens, RebateSum, Fees, Foreign, Ledger, Locked],
                None,
                &[
                    ("core", 4, 5),
                    ("deep", 6, 8),
                    ("take", 4, 6),
                    ("fees", 5, 6),
                    ("stp", 4, 5),
                    ("types", 3, 4),
                    ("life", 6, 7),
                    ("close", 6, 7),
                    ("replace", 4, 5),
                    ("funds", 4, 5),
                    ("perm:crank", 6, 8),
                    ("prune", 3, 5),
                    ("fullbook:bids", 3, 4),
                    ("fullbook:asks", 3, 4),
                    ("fullq:a", 3, 4),
                    ("fullq:c", 3, 4),
                    ("slots", 3, 4),
                    ("shape:unit", 3, 5),
                    ("shape:coinlot", 3, 5),
                    ("shape:pclot", 3, 5),
                    ("shape:price", 3, 5),
                    ("shape:ring", 3, 5),
                    ("shape:slots62", 3, 4),
                    ("ladder", 1, 2),
                    ("ladder:self", 1, 2),
                    ("ladder:then", 3, 3),
                    ("takegrid", 2, 3),
                    ("feegrid:ask", 1, 1),
                    ("feegrid:bid", 1, 1),
                    ("tiers", 2, 2),
                    ("tiers:stable", 1, 2),
                    ("huge", 2, 3),
                    ("huge:lots", 2, 3),
                    ("crank", 4, 6),
                    ("cids", 4, 5),
                    ("fullq:prune", 3, 4),
                    ("disabled", 4, 5),
                ],
            ),
            // donations to a vault are possible here
            seq(ALL, &[Solvent, Claims, Deposits, Tokens, RebateSum, Fees, Foreign], None, &[("auth:open", 1, 1), ("auth:perm", 1, 1)])],
        ),
        // per-account ledger
        p(
            "D02",
            vec![full(
                ALL,
                &[Ledger, Locked, Claims, Foreign],
                None,
                &[
                    ("core", 4, 5),
                    ("deep", 6, 8),
                    ("take", 4, 6),
                    ("fees", 5, 6),
                    ("stp", 4, 5),
                    ("types", 3, 4),
                    ("replace", 4, 5),
                    ("cids", 4, 5),
                    ("funds", 4, 5),
                    ("life", 6, 7),
                    ("close", 6, 7),
                    ("perm:crank", 6, 8),
                    ("prune", 3, 5),
                    ("fullbook:bids", 3, 4),
                    ("fullbook:asks", 3, 4),
                    ("fullq:a", 3, 4),
                    ("fullq:b", 3, 4),
                    ("fullq:c", 3, 4),
                    ("fullq:d", 3, 4),
                    ("slots", 3, 4),
                    ("shape:unit", 3, 5),
                    ("shape:coinlot", 3, 5),
                    ("shape:pclot", 3, 5),
                    ("shape:price", 3, 5),
                    ("shape:pricegap", 3, 5),
                    ("shape:price50", 3, 5),
                    ("shape:price57", 3, 5),
                    ("shape:price62", 3, 5), ("shape:price63", 3, 3),
                    ("shape:twin0", 3, 5),
                    ("shape:twin3", 3, 5),
                    ("shape:twinz", 3, 5),
                    ("shape:qty", 3, 5),
                    ("shape:ring", 3, 5),
                    ("shape:slots62", 3, 4),
                    ("ladder", 1, 2),
                    ("ladder:self", 1, 2),
                    ("ladder:then", 3, 3),
                    ("ladder:selfthen", 3, 3),
                    ("feegrid:ask", 1, 1),
                    ("feegrid:bid", 1, 1),
                    ("tiers", 2, 2),
                    ("huge", 2, 3),
                    ("huge:lots", 2, 3),
                    ("crank", 4, 6),
                    ("fullq:prune", 3, 4),
                    ("disabled", 4, 5),
                    ("auth:open", 1, 1),
                    ("auth:perm", 1, 1),
                ],
            )],
        ),
        // price-time priority
        p(
            "D03",
            vec![seq(MATCHING, &[Result, Events], None, &[("core", 4, 4), ("ladder", 1, 1), ("ladder:self", 1, 1), ("ladder:then", 3, 3), ("deep", 6, 6), ("crank", 3, 3), ("types", 3, 3)]),
            full(
                ALL,
                &[Fills, Book, Uncrossed, Tree, Seq],
                None,
                &[
                    ("core", 4, 5),
                    ("deep", 6, 8),
                    ("types", 3, 4),
                    ("stp", 4, 5),
                    ("take", 4, 6),
                    ("replace", 4, 5),
                    ("crank", 3, 5),
                    ("shape:unit", 3, 5),
                    ("shape:coinlot", 3, 5),
                    ("shape:pclot", 3, 5),
                    ("shape:price", 3, 5),
                    ("shape:pricegap", 3, 5),
                    ("shape:price50", 3, 5),
                    ("shape:price57", 3, 5),
                    ("shape:price62", 3, 5), ("shape:price63", 3, 3),
                    ("shape:twin0", 3, 5),
                    ("shape:twin3", 3, 5),
                    ("shape:twinz", 3, 5),
                    ("shape:qty", 3, 5),
                    ("shape:seq8", 3, 5),
                    ("shape:seq16", 3, 5),
                    ("shape:seq24", 3, 4),
                    ("shape:seq32", 3, 5),
                    ("shape:seq48", 3, 4),
                    ("shape:seq62", 3, 5),
                    ("shape:ring", 3, 5),
                    ("shape:slots31", 3, 4),
                    ("shape:slots62", 3, 4),
                    ("ladder", 1, 2),
                    ("ladder:self", 1, 2),
                    ("ladder:then", 3, 3),
                    ("ladder:selfthen", 2, 3),
                    ("takegrid", 2, 3),
                    ("fullbook:bids", 3, 4),
                    ("fullbook:asks", 3, 4),
                    ("fullq:a", 3, 4),
                    ("fullq:b", 3, 4),
                    ("huge", 2, 3),
                    ("huge:lots", 2, 3),
                    ("prune", 2, 4),
                ],
            )],
        ),
        // taker limits
        p(
            "D04",
            vec![full(
                MATCHING,
                &[Result, Fills, Book, Ledger, Tokens, Deposits, Foreign, Fees],
                None,
                &[
                    ("core", 3, 5),
                    ("ladder", 1, 2),
                    ("ladder:self", 1, 2),
                    ("ladder:then", 3, 3),
                    ("ladder:selfthen", 2, 3),
                    ("takegrid", 2, 3),
                    ("take", 4, 6),
                    ("funds", 4, 5),
                    ("types", 3, 4),
                    ("huge", 2, 3),
                    ("huge:lots", 2, 3),
                    ("feegrid:ask", 1, 1),
                    ("feegrid:bid", 1, 1),
                    ("feegrid:stable", 1, 1),
                    ("tiers", 1, 2),
                    ("replace", 3, 5),
                    ("shape:unit", 3, 4),
                    ("shape:coinlot", 3, 4),
                    ("shape:pclot", 3, 4),
                    ("shape:price", 3, 4),
                    ("shape:pricegap", 3, 4),
                    ("shape:price50", 3, 4),
                    ("shape:price57", 3, 4),
                    ("shape:price62", 3, 4), ("shape:price63", 3, 3),
                    ("shape:twin0", 3, 4),
                    ("shape:twin3", 3, 4),
                    ("shape:twinz", 3, 4),
                    ("shape:qty", 3, 4),
                ],
            )],
        ),
        // order types, match limits, expiry
        p(
            "D05",
            vec![full(
                MATCHING,
                &[Result, Fills, Book, Events, Slots, Ledger, Tokens, Deposits, Foreign],
                None,
                &[
                    ("types", 4, 5),
                    ("ladder", 1, 2),
                    ("ladder:self", 1, 2),
                    ("ladder:then", 2, 3),
                    ("stp", 3, 5),
                    ("fullbook:bids", 3, 4),
                    ("fullbook:asks", 3, 4),
                    ("fullq:a", 2, 4),
                    ("fullq:b", 2, 4),
                    ("fullq:c", 2, 4),
                    ("replace", 4, 5),
                    ("life", 4, 6),
                    ("slots", 3, 4),
                    ("shape:slots126", 2, 3),
                    ("huge", 2, 3),
                    ("funds", 3, 4),
                    ("expiry", 3, 4),
                    ("expiry:far", 3, 3),
                    ("expirytypes", 2, 3),
                    ("limits", 1, 2),
                ],
            )],
        ),
        // self trade
        p(
            "D06",
            vec![seq(
                ALL,
                &[Result, Fills, Book, Events, Ledger, Tokens, Fees, Rebate, RebateSum, Slots, Deposits, Solvent, Surplus, Claims, Locked],
                None,
                &[("stp", 4, 6), ("ladder:self", 1, 2), ("ladder:selfthen", 3, 3)],
            ),
            full(
                &["new", "replace"],
                &[Result, Fills, Book, Events, Ledger, Tokens, Fees, Rebate, RebateSum, Slots, Deposits, Solvent, Surplus, Claims, Locked],
                None,
                &[
                    ("replace", 4, 5),
                    ("fullq:a", 3, 4),
                    ("fullq:b", 3, 4),
                    ("core", 3, 5),
                    ("shape:coinlot", 3, 4),
                    ("shape:pclot", 3, 4),
                ],
            )],
        ),
        // fees and rebates
        p(
            "D07",
            vec![full(
                ALL,
                &[Fees, Rebate, RebateSum, Ledger, Tokens, Events, Deposits],
                None,
                &[
                    ("tiers", 2, 2),
                    ("tiers:stable", 2, 2),
                    ("feegrid:ask", 1, 1),
                    ("feegrid:bid", 1, 1),
                    ("feegrid:stable", 1, 1),
                    ("fees", 5, 6),
                    ("stable:0", 4, 6),
                    ("stable:1", 4, 6),
                    ("stable:2", 4, 6),
                    ("stable:3", 4, 6),
                    ("stable:4", 4, 6),
                    ("stable:5", 4, 6),
                    ("take", 4, 6),
                    ("takegrid", 1, 2),
                    ("close", 6, 7),
                    ("life", 6, 7),
                    ("core", 4, 5),
                    ("ladder", 1, 2),
                    ("ladder:then", 3, 3),
                    ("stp", 3, 5),
                    ("replace", 3, 5),
                    ("crank", 3, 5),
                    ("shape:unit", 3, 5),
                    ("shape:coinlot", 3, 5),
                    ("shape:pclot", 3, 5),
                    ("huge", 2, 3),
                ],
            ),
            seq(&["sweep", "settle"], &[Result], None, &[("fees", 5, 6), ("life", 6, 7), ("close", 6, 7)]),
            seq(ALL, &[Result], None, &[("tiers", 2, 2), ("tiers:stable", 2, 2), ("stable:0", 4, 5)]),
            seq(ALL, &[Fees, Rebate, RebateSum, Ledger, Tokens, Events, Deposits, Result, Foreign], None, &[
                ("auth:open:new_srm", 1, 1),
                ("auth:open:take_srm", 1, 1),
                ("auth:open:sweep", 1, 1),
                ("auth:open:settle_ref", 1, 1),
                ("auth:perm:new_srm", 1, 1),
                ("auth:perm:take_srm", 1, 1),
                ("auth:perm:sweep", 1, 1),
                ("auth:perm:settle_ref", 1, 1),
            ])],
        ),
        // event delivery
        p(
            "D08",
            vec![
                seq(
                    &["consume", "consume_perm"],
                    &[Result, Events, Ledger, Slots, Rebate, Fees, Deposits, Tokens, SlotMap, Crank, Book],
                    Some(hooks::crank),
                    &[
                        ("crank", 3, 5),
                        ("core", 3, 4),
                        ("stp", 3, 4),
                        ("take", 3, 4),
                        ("fees", 4, 5),
                        ("replace", 3, 4),
                        ("shape:ring", 3, 4),
                        ("shape:ring2", 3, 4),
                        ("shape:slots62", 2, 3),
                        ("fullq:a", 2, 3),
                        ("fullq:b", 2, 3),
                        ("fullq:c", 2, 3),
                        ("fullq:d", 2, 3),
                        ("fullbook:bids", 2, 3),
                        ("fullbook:asks", 2, 3),
                        ("perm:crank", 5, 7),
                        ("prune", 2, 4),
                        ("ladder:selfthen", 2, 2),
                        ("limits", 1, 2),
                        ("slots", 2, 3),
                        ("shape:slots126", 2, 3),
                        ("life", 4, 6),
                    ],
                ),
                full(
                    ALL,
                    &[Events, SlotMap, Slots, Claims],
                    None,
                    &[("fullq:prune", 3, 4), ("crank", 4, 6), ("core", 4, 5), ("stp", 4, 5), ("fullq:b", 3, 4), ("ladder:self", 1, 2), ("takegrid", 1, 2), ("shape:ring", 3, 5), ("cids", 4, 5)],
                ),
            ],
        ),
        // cancellation and order lifecycle
        p(
            "D09",
            vec![full(
                ALL,
                &[Result, Book, Slots, SlotMap, Events, Ledger, Locked, Foreign, Tokens, Deposits, Seq],
                None,
                &[
                    ("cids", 5, 6),
                    ("cids:neg", 4, 6),
                    ("core", 4, 5),
                    ("stp", 3, 5),
                    ("slots", 4, 5),
                    ("shape:slots7", 3, 4),
                    ("shape:slots31", 3, 4),
                    ("shape:slots62", 3, 4),
                    ("shape:slots126", 3, 4),
                    ("shape:seq8", 3, 5),
                    ("shape:seq16", 3, 5),
                    ("shape:seq24", 3, 4),
                    ("shape:seq32", 3, 5),
                    ("shape:seq48", 3, 4),
                    ("shape:seq62", 3, 5),
                    ("shape:price", 3, 5),
                    ("shape:ring", 3, 5),
                    ("fullq:a", 2, 4),
                    ("fullq:c", 3, 4),
                    ("fullq:d", 3, 4),
                    ("fullbook:bids", 3, 4),
                    ("fullbook:asks", 3, 4),
                    ("crank", 4, 6),
                    ("life", 5, 7),
                    ("prune", 3, 4),
                    ("perm:p", 6, 8),
                    ("auth:open:cancel", 1, 1),
                    ("auth:open:cancel_cid", 1, 1),
                    ("auth:open:cancel_cids", 1, 1),
                    ("auth:perm:cancel", 1, 1),
                    ("auth:perm:cancel_cid", 1, 1),
                    ("auth:perm:cancel_cids", 1, 1),
                    ("replmany", 2, 3),
                    ("replace", 4, 5),
                    ("disabled", 4, 5),
                    ("fullq:prune", 3, 4),
                ],
            )],
        ),
        // replace
        p(
            "D10",
            vec![seq(
                &["replace"],
                NO_SURPLUS,
                None,
                &[("replace", 5, 6), ("widecids", 3, 5), ("cids", 5, 6), ("cids:neg", 5, 6), ("expiry", 4, 5), ("expiry:far", 4, 5), ("expirytypes", 2, 3), ("replmany", 2, 3), ("slots", 3, 4), ("fullq:a", 3, 4), ("fullq:b", 3, 4), ("fullq:c", 3, 4), ("fullq:d", 3, 4), ("replgrid", 1, 2), ("auth:open:replace", 1, 1), ("auth:open:replaces", 1, 1), ("auth:perm:replace", 1, 1), ("auth:perm:replaces", 1, 1), ("disabled", 4, 5)],
            )],
        ),
        // settlement
        p(
            "D11",
            vec![full(
                &["settle"],
                NO_SURPLUS,
                None,
                &[
                    ("disabled", 4, 5),
                    ("core", 4, 5),
                    ("deep", 6, 8),
                    ("fees", 5, 6),
                    ("funds", 4, 5),
                    ("life", 6, 7),
                    ("close", 6, 7),
                    ("take", 4, 6),
                    ("stp", 3, 5),
                    ("perm:crank", 6, 8),
                    ("crank", 4, 5),
                    ("prune", 3, 4),
                    ("ladder:then", 3, 3),
                    ("huge", 2, 3),
                    ("huge:lots", 3, 3),
                    ("shape:unit", 3, 5),
                    ("shape:coinlot", 3, 5),
                    ("fullq:a", 2, 4),
                    ("auth:open:settle", 1, 1),
                    ("auth:open:settle_ref", 1, 1),
                    ("auth:perm:settle", 1, 1),
                    ("auth:perm:settle_ref", 1, 1),
                ],
            )],
        ),
        // send-take
        p(
            "D12",
            vec![seq(
                &["take"],
                NO_SURPLUS,
                None,
                &[
                    ("takegrid", 3, 3),
                    ("shape:twin3", 4, 5),
                    ("shape:twinz", 4, 5),
                    ("limits", 2, 3),
                    ("take:unit", 4, 5),
                    ("take", 5, 6),
                    ("tiers", 1, 2),
                    ("tiers:stable", 1, 2),
                    ("stable:0", 3, 5),
                    ("fees", 5, 6),
                    ("life", 5, 7),
                    ("perm:oo", 6, 8),
                    ("fullq:a", 3, 4),
                    ("fullq:b", 3, 4),
                    ("fullq:c", 3, 4),
                    ("fullq:d", 3, 4),
                    ("huge", 2, 3),
                    ("auth:open:take_bid", 1, 1),
                    ("auth:open:take_ask", 1, 1),
                    ("auth:open:take_srm", 1, 1),
                    ("auth:perm:take_bid", 1, 1),
                    ("auth:perm:take_ask", 1, 1),
                    ("disabled", 4, 5),
                ],
            )],
        ),
        // authorization
        p(
            "D13",
            vec![
                seq(ALL, NO_SURPLUS, None, &[
                    ("auth:open", 1, 2),
                    ("auth:perm", 1, 2),
                    ("auth:half", 1, 1),
                    ("auth:same", 1, 1),
                    ("auth2:open:new_bid", 1, 1),
                    ("auth2:open:new_ask", 1, 1),
                    ("auth2:open:new_srm", 1, 1),
                    ("auth2:open:take_bid", 1, 1),
                    ("auth2:open:take_ask", 1, 1),
                    ("auth2:open:take_srm", 1, 1),
                    ("auth2:open:cancel", 1, 1),
                    ("auth2:open:cancel_cid", 1, 1),
                    ("auth2:open:cancel_cids", 1, 1),
                    ("auth2:open:replace", 1, 1),
                    ("auth2:open:replaces", 1, 1),
                    ("auth2:open:settle", 1, 1),
                    ("auth2:open:settle_ref", 1, 1),
                    ("auth2:open:sweep", 1, 1),
                    ("auth2:open:disable", 1, 1),
                    ("auth2:open:close", 1, 1),
                    ("auth2:open:consume", 1, 1),
                    ("auth2:open:init_oo", 1, 1),
                    ("auth2:open:prune", 1, 1),
                    ("auth2:open:consume_perm", 1, 1),
                    ("auth2:open:new_init", 1, 1),
                    ("auth2:perm:new_bid", 1, 1),
                    ("auth2:perm:new_ask", 1, 1),
                    ("auth2:perm:new_srm", 1, 1),
                    ("auth2:perm:take_bid", 1, 1),
                    ("auth2:perm:take_ask", 1, 1),
                    ("auth2:perm:take_srm", 1, 1),
                    ("auth2:perm:cancel", 1, 1),
                    ("auth2:perm:cancel_cid", 1, 1),
                    ("auth2:perm:cancel_cids", 1, 1),
                    ("auth2:perm:replace", 1, 1),
                    ("auth2:perm:replaces", 1, 1),
                    ("auth2:perm:settle", 1, 1),
                    ("auth2:perm:settle_ref", 1, 1),
                    ("auth2:perm:sweep", 1, 1),
                    ("auth2:perm:disable", 1, 1),
                    ("auth2:perm:close", 1, 1),
                    ("auth2:perm:consume", 1, 1),
                    ("auth2:perm:init_oo", 1, 1),
                    ("auth2:perm:prune", 1, 1),
                    ("auth2:perm:consume_perm", 1, 1),
                    ("auth2:perm:init_oo_plain", 1, 1),
                ]),
                seq(ALL, &[Result, Foreign, Slots, Tokens, Book], None, &[("cids", 4, 5), ("cids:neg", 3, 5), ("life", 4, 6), ("perm:crank", 5, 7)]),
            ],
        ),
        // disabled markets
        p(
            "D14",
            vec![
                seq(ALL, NO_SURPLUS, None, &[("life", 6, 8), ("close", 6, 7), ("perm:p", 6, 8), ("perm:crank", 6, 8), ("disabled", 4, 5)]),
                seq(&["disable", "sweep"], NO_SURPLUS, None, &[("auth:open:disable", 1, 1), ("auth:open:sweep", 1, 1), ("auth:perm:disable", 1, 1)]),
            ],
        ),
        // exit
        p(
            "D15",
            vec![seq(
                &["cancel", "consume", "consume_perm", "settle", "close"],
                &[Exit, Result],
                Some(hooks::exit),
                &[
                    ("core", 3, 4),
                    ("deep", 5, 6),
                    ("take", 3, 5),
                    ("fees", 4, 5),
                    ("life", 5, 6),
                    ("close", 5, 6),
                    ("stp", 3, 4),
                    ("types", 2, 3),
                    ("replace", 3, 4),
                    ("cids", 3, 4),
                    ("funds", 3, 4),
                    ("perm:oo", 6, 7),
                    ("perm:crank", 6, 7),
                    ("prune", 2, 3),
                    ("fullq:a", 2, 3),
                    ("fullq:c", 2, 3),
                    ("fullq:d", 2, 3),
                    ("fullbook:bids", 2, 3),
                    ("fullbook:asks", 2, 3),
                    ("slots", 2, 2),
                    ("limits", 1, 1),
                    ("shape:coinlot", 2, 3),
                    ("shape:pclot", 2, 3),
                    ("shape:slots62", 2, 3),
                    ("shape:reuse", 2, 3),
                    ("take:unit", 3, 4),
                    ("ladder", 1, 1),
                    ("ladder:self", 1, 1),
                    ("tiers", 1, 1),
                    ("crank", 3, 4),
                    ("disabled", 3, 4),
                ],
            )],
        ),
        // permissioned markets
        p(
            "D16",
            vec![
                seq(ALL, CONFORM, None, &[("perm:oo", 6, 8), ("perm:p", 6, 8), ("perm:crank", 6, 8), ("perm:same", 6, 7), ("perm:same2", 6, 7)]),
                seq(ALL, NO_SURPLUS, None, &[("auth:perm", 1, 1), ("auth:half", 1, 1), ("auth:same", 1, 1)]),
            ],
        ),
        // market creation
        p("D17", vec![How::Special(crate::init::run)]),
        // book storage
        p(
            "D18",
            vec![
                How::Special(crate::slab::run),
                seq(
                    ALL,
                    &[Tree, Book],
                    None,
                    &[("core", 4, 5), ("shape:price", 3, 4), ("shape:pricegap", 3, 4), ("shape:price50", 3, 4), ("shape:price57", 3, 4), ("shape:price62", 3, 4), ("shape:price63", 3, 3), ("shape:twin0", 3, 4), ("shape:twin3", 3, 4), ("shape:twinz", 3, 4), ("shape:seq8", 3, 4), ("shape:seq16", 3, 4), ("shape:seq24", 3, 4), ("shape:seq32", 3, 4), ("shape:seq48", 3, 4), ("shape:seq62", 3, 4), ("fullbook:bids", 3, 5), ("fullbook:asks", 3, 5), ("slots", 3, 4), ("prune", 3, 5), ("shape:slots62", 3, 4), ("ladder:then", 3, 3), ("huge", 2, 3), ("big:book", 2, 3), ("big:events", 2, 3)],
                ),
            ],
        ),
        // book and queue capacity
        p(
            "D19",
            vec![full(
                ALL,
                EVERYTHING,
                None,
                &[("fullbook:bids", 4, 5), ("fullbook:asks", 4, 5), ("fullq:a", 3, 5), ("fullq:b", 4, 5), ("fullq:c", 4, 5), ("fullq:d", 4, 5), ("slots", 3, 5), ("shape:slots126", 2, 3), ("shape:ring", 3, 4), ("fullq:prune", 4, 5), ("fullq:prune2", 3, 4)],
            )],
        ),
        // account opening and closing
        p(
            "D20",
            vec![
                full(
                    ALL,
                    NO_SURPLUS,
                    None,
                    &[("life", 6, 8), ("close", 6, 8), ("perm:oo", 6, 8), ("perm:crank", 6, 8)],
                ),
                seq(&["close", "init_oo", "new"], NO_SURPLUS, None, &[("auth:open:close", 1, 1), ("auth:open:init_oo", 1, 1), ("auth:open:new_init", 1, 1), ("auth:perm:close", 1, 1), ("auth:perm:init_oo", 1, 1), ("auth:perm:init_oo_plain", 1, 1)]),
                seq(ALL, NO_SURPLUS, None, &[("disabled", 4, 5)]),
            ],
        ),
        // prune
        p(
            "D21",
            vec![
                seq(&["prune"], EVERYTHING, None, &[("limits", 2, 3), ("big:book", 2, 3), ("big:events", 2, 3), ("prune", 4, 5), ("fullq:prune", 4, 5), ("fullq:prune2", 3, 4), ("perm:p", 6, 8), ("perm:oo", 6, 8), ("disabled", 4, 5)]),
                seq(&["prune"], NO_SURPLUS, None, &[("auth:perm:prune", 1, 1), ("auth:open:prune", 1, 1)]),
            ],
        ),
        // wire format
        p("D22", vec![How::Special(crate::wire::run)]),
    ]
}
