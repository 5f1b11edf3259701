"""bug(id, prop, edits, deps, main, needs, breaks): writes /verif/seeded/<id> from edits made on a scratch copy of /repo
(/tmp/iso/mk) and a demonstration program that links seedkit (chain.rs from the simulator and kit.rs)."""
import json, os, shutil, subprocess
H = os.path.dirname(os.path.abspath(__file__))
R = "/tmp/iso/mk"
DEPS = {
 "pair": 'astroport-pair = { path = "@REPO@/contracts/pair", features = ["library"] }',
 "stable": 'astroport-pair-stable = { path = "@REPO@/contracts/pair_stable", features = ["library"] }',
 "pcl": 'astroport-pair-concentrated = { path = "@REPO@/contracts/pair_concentrated", features = ["library"] }',
 "trans": 'astroport-pair-transmuter = { path = "@REPO@/contracts/pair_transmuter", features = ["library"] }',
 "sale": 'astroport-pair-xyk-sale-tax = { path = "@REPO@/contracts/pair_xyk_sale_tax", features = ["library"] }',
 "xastropair": 'astroport-pair-xastro = { path = "@REPO@/contracts/pair_xastro", features = ["library"] }',
 "router": 'astroport-router = { path = "@REPO@/contracts/router" }',
 "inc": 'astroport-incentives = { path = "@REPO@/contracts/tokenomics/incentives", features = ["library"] }',
 "vesting": 'astroport-vesting = { path = "@REPO@/contracts/tokenomics/vesting", features = ["library"] }',
 "staking": 'astroport-staking = { path = "@REPO@/contracts/tokenomics/staking" }',
 "tracker": 'astroport-tokenfactory-tracker = { path = "@REPO@/contracts/periphery/tokenfactory_tracker", features = ["library"] }',
 "maker": 'astroport-maker = { path = "@REPO@/contracts/tokenomics/maker", features = ["library"] }',
 "xastro": 'astroport-xastro-token = { path = "@REPO@/contracts/tokenomics/xastro_token", features = ["library"] }',
 "conv": 'astro-token-converter = { path = "@REPO@/contracts/periphery/astro_converter", features = ["library"] }',
 "convn": 'astro-token-converter-neutron = { path = "@REPO@/contracts/periphery/astro_converter_neutron", features = ["library"] }',
 "convpair": 'astroport-pair-converter = { path = "@REPO@/contracts/pair_astro_converter", features = ["library"] }',
 "fee": 'astroport-fee-granter = { path = "@REPO@/contracts/periphery/fee_granter", features = ["library"] }',
 "oracle": 'astroport-oracle = { path = "@REPO@/contracts/periphery/oracle" }',
 "whitelist": 'astroport-whitelist = { path = "@REPO@/contracts/whitelist", features = ["library"] }',
 "pclcommon": 'astroport-pcl-common = { path = "@REPO@/packages/astroport_pcl_common" }',
 "neutron": 'neutron-sdk = { version = "0.9.0" }',
 "v3": 'astroport_v3 = { package = "astroport", version = "3" }',
 "cw1": 'cw1-whitelist = { version = "1.1", features = ["library"] }',
 "v4": 'astroport_v4 = { package = "astroport", version = "4" }',
}
HEAD = """mod chain;
mod runner {
    pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
        e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    }
}
mod kit;
#[allow(unused_imports)]
use astroport::{asset::*, factory::PairType};
use chain::*;
#[allow(unused_imports)]
use cosmwasm_std::{to_json_binary, Addr, Coin, Decimal, Uint128, Uint64};
use kit::*;
"""
def bug(id, prop, edits, deps, main, needs, breaks):
    d = f"{H}/../seeded/{id}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    for f, a, b in edits:
        p = f"{R}/{f}"; s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True, check=True).stdout
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    open(f"{d}/patch.diff", "w").write(diff)
    for f in ("kit.rs", "demo.sh", "Cargo.lock"):
        shutil.copy(f"{H}/seedkit/{f}", f"{d}/{f}")
    shutil.copy(f"{H}/../sim/src/chain.rs", f"{d}/chain.rs")
    t = open(f"{H}/seedkit/Cargo.toml.in").read().replace("#DEPS", "\n".join(DEPS[x] for x in deps))
    open(f"{d}/Cargo.toml.in", "w").write(t)
    open(f"{d}/main.rs", "w").write(HEAD + main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
