"""Which contracts decide which property."""
KEM = ["kem_keypair", "kem_enc", "kem_dec"]
RNG = ["rng_new", "rng_default", "rng_init", "rng_bytes"]


def spec(names):
    return ["spec:" + n for n in names]


# goals: contracts that must be proved; cats: kinds of obligations that decide;
# api: contracts of the public interface that arbitrate when a goal on a private function is not
# proved; search: native searches for a failing input; always: run the search even if proved
PROPS = {
    "C01": dict(goals=["kem_keypair_core", "kem_enc", "kem_dec_accept"], cats="functional", search=["roundtrip"], always=True),
    "C02": dict(goals=KEM, cats="functional", search=["reject"], always=True),
    "C03": dict(goals=["kem_keypair"], cats="functional", search=spec(["kem_keypair"]), always=True),
    "C04": dict(goals=["kem_enc"], cats="functional", search=spec(["kem_enc"]), always=True),
    "C05": dict(goals=["kem_dec"], cats="functional", search=spec(["kem_dec"]), always=True),
    "C06": dict(goals=KEM + RNG, cats="panic", search=["panic:" + n for n in KEM + ["rng_init", "rng_bytes"]], native="checked", always=True),
    "C07": dict(goals=KEM, cats="ct", search=["trace:" + n for n in KEM], native="trace", ms=12000, always=True),
    "C08": dict(goals=["sq_tobytes", "sq_frombytes", "sum_zero_tobytes", "sum_zero_frombytes"], cats="functional", api=KEM, search=spec(["kem_dec", "kem_enc", "kem_keypair"])),
    "C09": dict(goals=["s3_tobytes", "s3_frombytes"], cats="functional", api=KEM, search=spec(["kem_dec", "kem_enc", "kem_keypair"])),
    "C10": dict(goals=["iid", "sample_fg", "sample_rm"], hps=["fixed"], hrss=["iid_plus"], cats="functional", api=["kem_keypair", "kem_enc"], search=spec(["kem_enc", "kem_keypair"])),
    "C11": dict(goals=["sort"], only="hps", cats="functional", api=["kem_keypair", "kem_enc"], search=spec(["kem_enc", "kem_keypair"])),
    "C12": dict(goals=RNG, cats="functional", search=spec(RNG), ms=16000, always=True),
    "C13": dict(goals=["kem_keypair", "kem_enc"], cats="rng", search=["rngfail"], always=True),
    "C14": dict(goals=["mod3", "mod_q_phi", "mod_3_phi", "rq_to_s3", "rq_mul", "sq_mul", "s3_mul", "z3_to_zq", "zq_to_z3", "lift"], cats="functional", api=KEM, search=spec(["kem_dec", "kem_enc", "kem_keypair"])),
    "C15": dict(goals=["r2_inv", "r2_to_rq_inv", "rq_inv", "s3_inv"], cats="functional", api=["kem_keypair"], search=spec(["kem_keypair"])),
    "C16": dict(goals=KEM, cats="indep", search=["dirty:" + n for n in KEM], always=True),
}
