//! Which calls the random programs for each property make.
use crate::gen::{Profile, Shapes};

const ALL: &[&str] = &["f64", "f32", "i32", "i64", "u8", "usize", "i8", "u32", "u64", "i128", "u128"];
const SIGNED: &[&str] = &["f64", "f32", "i32", "i64", "i128"];
const FLOAT: &[&str] = &["f64", "f32"];

const fn shapes(max_rank: usize, max_size: usize, zero: usize, one: usize, max_dim: usize) -> Shapes {
    Shapes { max_rank, max_size, zero, one, max_dim }
}

pub const PROFILES: &[Profile] = &[
    Profile {
        name: "index",
        types: ALL,
        ops: &[(3, "leaf"), (2, "view"), (2, "reshape"), (14, "get"), (2, "sweep"), (1, "first"), (1, "elem"), (1, "iter"), (1, "to_tensor"), (1, "show")],
        shapes: shapes(7, 60, 3, 25, 6),
        steps: 40,
        obs: 0,
        misfit: 10,
        special: 0,
    },
    Profile {
        name: "construct",
        types: ALL,
        ops: &[(8, "leaf"), (4, "badnew"), (2, "clone"), (2, "to_tensor"), (2, "deep_clone"), (1, "deref"), (2, "meta"), (1, "elem"), (1, "first"), (1, "iter"), (1, "show")],
        shapes: shapes(6, 80, 4, 20, 9),
        steps: 25,
        obs: 3,
        misfit: 10,
        special: 0,
    },
    Profile {
        name: "views",
        types: ALL,
        ops: &[(3, "leaf"), (8, "view"), (4, "reshape"), (2, "get"), (1, "sweep"), (1, "iter"), (2, "to_tensor"), (1, "clone"),
               (1, "deep_clone"), (2, "sum"), (2, "bmm"), (2, "fdotnd"), (2, "mul"), (1, "emul"), (1, "smul"), (1, "add"),
               (1, "gun"), (2, "eq"), (1, "meta"), (1, "first"), (1, "bcast"), (1, "sshape"), (1, "tensor")],
        shapes: shapes(5, 60, 3, 18, 7),
        steps: 25,
        obs: 4,
        misfit: 15,
        special: 0,
    },
    Profile {
        name: "arith",
        types: ALL,
        ops: &[(3, "leaf"), (10, "add"), (6, "sub"), (3, "neg"), (2, "bcast"), (1, "view"), (1, "show")],
        shapes: shapes(6, 90, 3, 30, 9),
        steps: 25,
        obs: 0,
        misfit: 20,
        special: 0,
    },
    Profile {
        name: "products",
        types: ALL,
        ops: &[(3, "leaf"), (8, "mul"), (4, "emul"), (3, "smul"), (1, "view"), (1, "add")],
        shapes: shapes(4, 90, 3, 15, 9),
        steps: 25,
        obs: 0,
        misfit: 20,
        special: 0,
    },
    Profile {
        name: "matmul",
        types: ALL,
        ops: &[(2, "leaf"), (10, "bmm"), (1, "view"), (1, "reshape")],
        shapes: shapes(4, 150, 2, 18, 17),
        steps: 12,
        obs: 0,
        misfit: 15,
        special: 0,
    },
    Profile {
        name: "matmul_big",
        types: &["f32", "i32", "f64", "usize"],
        ops: &[(10, "bmm")],
        shapes: shapes(3, 700, 0, 8, 41),
        steps: 2,
        obs: 0,
        misfit: 0,
        special: 0,
    },
    Profile {
        name: "reduce",
        types: ALL,
        ops: &[(3, "leaf"), (6, "sum"), (4, "fdot"), (4, "fdotnd"), (3, "rdot"), (2, "view"), (1, "reshape")],
        shapes: shapes(4, 200, 3, 15, 40),
        steps: 20,
        obs: 0,
        misfit: 15,
        special: 0,
    },
    Profile {
        name: "maps",
        types: &["f64", "f32", "f64", "f32", "i32", "u8"],
        ops: &[(3, "leaf"), (10, "map"), (4, "gun"), (2, "neg"), (1, "view"), (1, "reshape"), (1, "to_tensor"), (1, "show")],
        shapes: shapes(4, 90, 3, 15, 20),
        steps: 20,
        obs: 0,
        misfit: 10,
        special: 35,
    },
    Profile {
        name: "zeros_maps",
        types: FLOAT,
        ops: &[(3, "leaf"), (8, "map"), (5, "gun"), (1, "view"), (1, "reshape"), (1, "to_tensor"), (1, "clone"), (1, "deep_clone")],
        shapes: shapes(4, 40, 2, 15, 12),
        steps: 16,
        obs: 5,
        misfit: 5,
        special: 70,
    },
    Profile {
        name: "ieee_sums",
        types: &["f64", "f32"],
        ops: &[(3, "leaf"), (6, "add"), (4, "sub"), (2, "neg"), (3, "sum"), (1, "view"), (1, "gun"), (1, "map"), (1, "eq")],
        shapes: shapes(3, 24, 3, 30, 4),
        steps: 18,
        obs: 0,
        misfit: 4,
        special: 70,
    },
    Profile {
        name: "ieee_products",
        types: &["f64", "f32"],
        ops: &[(3, "leaf"), (5, "mul"), (3, "emul"), (3, "smul"), (4, "bmm"), (2, "fdot"), (2, "fdotnd"), (1, "rdot"), (1, "sum"), (1, "view")],
        shapes: shapes(3, 24, 3, 25, 4),
        steps: 18,
        obs: 0,
        misfit: 4,
        special: 70,
    },
    Profile {
        name: "ieee_graph",
        types: &["f64", "f32"],
        ops: &[(2, "pipe"), (3, "rcleaf"), (5, "add"), (3, "sub"), (2, "neg"), (4, "rcbmm"), (4, "fdot"), (3, "rcsum"), (6, "map"), (3, "backward"), (1, "zero"), (1, "grad"), (1, "weighted")],
        shapes: shapes(3, 24, 1, 25, 5),
        steps: 22,
        obs: 8,
        misfit: 3,
        special: 50,
    },
    Profile {
        name: "deep",
        types: &["f64", "i32", "f32", "i64"],
        ops: &[(3, "rcleaf"), (4, "chain"), (1, "add"), (1, "rcbmm"), (2, "rcsum"), (3, "backward"), (1, "grad"), (1, "clone")],
        shapes: shapes(2, 6, 0, 60, 3),
        steps: 9,
        obs: 0,
        misfit: 2,
        special: 0,
    },
    Profile {
        name: "autograd",
        types: SIGNED,
        ops: &[(2, "pipe"), (3, "rcleaf"), (5, "add"), (3, "sub"), (2, "neg"), (5, "rcbmm"), (3, "fdot"), (3, "rcsum"), (5, "map"), (2, "backward")],
        shapes: shapes(4, 60, 1, 25, 9),
        steps: 16,
        obs: 6,
        misfit: 6,
        special: 0,
    },
    Profile {
        name: "smooth",
        types: &["f64", "f64", "f32"],
        ops: &[(2, "pipe"), (3, "rcleaf"), (4, "add"), (2, "sub"), (1, "neg"), (3, "rcbmm"), (2, "fdot"), (2, "rcsum"), (8, "map"), (3, "backward"),
               (1, "mul"), (1, "zero"), (1, "upd"), (1, "grad"), (1, "view"), (1, "lin"), (2, "fwd")],
        shapes: shapes(3, 16, 1, 25, 4),
        steps: 16,
        obs: 10,
        misfit: 3,
        special: 0,
    },
    Profile {
        name: "smooth_maps",
        types: &["f64", "f32"],
        ops: &[(3, "rcleaf"), (8, "map"), (1, "add"), (1, "rcsum"), (1, "backward")],
        shapes: shapes(4, 40, 2, 20, 6),
        steps: 10,
        obs: 0,
        misfit: 0,
        special: 0,
    },
    Profile {
        name: "smooth_train",
        types: &["f64", "f64", "f32"],
        ops: &[],
        shapes: shapes(2, 9, 0, 20, 3),
        steps: 8,
        obs: 0,
        misfit: 0,
        special: 0,
    },
    Profile {
        name: "autograd_big",
        types: &["f64", "f32", "i32"],
        ops: &[(4, "rcbmm"), (2, "add"), (1, "map"), (2, "rcsum"), (3, "backward")],
        shapes: shapes(3, 300, 0, 10, 37),
        steps: 7,
        obs: 0,
        misfit: 0,
        special: 0,
    },
    Profile {
        name: "par",
        types: &["f64", "i32", "f32", "i64"],
        ops: &[(2, "pipe"), (4, "rcbmm"), (2, "add"), (1, "map"), (2, "rcsum"), (4, "backward"), (5, "many")],
        shapes: shapes(3, 90, 2, 12, 17),
        steps: 9,
        obs: 0,
        misfit: 4,
        special: 0,
    },
    Profile {
        name: "par_big",
        types: &["f64", "i32"],
        ops: &[(2, "pipe"), (6, "rcbmm"), (2, "rcsum"), (4, "backward"), (3, "many")],
        shapes: shapes(3, 400, 0, 8, 41),
        steps: 5,
        obs: 0,
        misfit: 0,
        special: 0,
    },
    Profile {
        name: "par_crowd",
        types: &["f64", "i32"],
        ops: &[(2, "rcleaf"), (2, "add"), (3, "rcsum"), (1, "rcbmm"), (1, "fdot"), (6, "many")],
        shapes: shapes(2, 300, 0, 10, 120),
        steps: 8,
        obs: 0,
        misfit: 0,
        special: 0,
    },
    Profile {
        name: "par_huge",
        types: &["f64", "i32"],
        ops: &[],
        shapes: shapes(3, 100000, 0, 0, 0),
        steps: 0,
        obs: 0,
        misfit: 0,
        special: 0,
    },
    Profile {
        name: "life_history",
        types: SIGNED,
        ops: &[(2, "pipe"), (2, "rcleaf"), (3, "add"), (2, "sub"), (1, "neg"), (2, "rcbmm"), (2, "fdot"), (2, "rcsum"), (2, "map"), (8, "backward"),
               (3, "zero"), (3, "upd"), (4, "grad"), (3, "clone"), (2, "deep_clone"), (1, "to_tensor"), (1, "deref"), (1, "mul"), (1, "view"), (1, "show")],
        shapes: shapes(3, 9, 0, 30, 3),
        steps: 1500,
        obs: 4,
        misfit: 8,
        special: 0,
    },
    Profile {
        name: "history",
        types: SIGNED,
        ops: &[(2, "pipe"), (2, "rcleaf"), (3, "add"), (2, "sub"), (1, "neg"), (2, "rcbmm"), (2, "fdot"), (2, "rcsum"), (2, "map"), (8, "backward"),
               (3, "zero"), (3, "upd"), (4, "grad"), (3, "clone"), (2, "deep_clone"), (1, "to_tensor"), (1, "deref"), (1, "mul"), (1, "view"), (1, "show")],
        shapes: shapes(3, 9, 0, 30, 3),
        steps: 40,
        obs: 25,
        misfit: 8,
        special: 0,
    },
    Profile {
        name: "immutable",
        types: SIGNED,
        ops: &[(2, "pipe"), (2, "leaf"), (2, "badnew"), (3, "add"), (2, "sub"), (1, "neg"), (2, "mul"), (1, "emul"), (1, "smul"), (3, "bmm"), (2, "fdot"),
               (1, "fdotnd"), (1, "rdot"), (2, "sum"), (2, "map"), (1, "gun"), (2, "view"), (2, "reshape"), (2, "get"), (1, "iter"), (1, "eq"),
               (4, "backward"), (1, "zero"), (1, "upd"), (2, "grad"), (1, "clone"), (1, "to_tensor"), (1, "deep_clone"), (1, "tensor"),
               (1, "lin"), (1, "mlp"), (2, "fwd"), (2, "fit"), (2, "sgd"), (1, "params"), (1, "setp"), (1, "show")],
        shapes: shapes(3, 9, 1, 25, 3),
        steps: 30,
        obs: 100,
        misfit: 20,
        special: 0,
    },
    Profile {
        name: "sgd",
        types: FLOAT,
        ops: &[(2, "pipe"), (2, "lin"), (3, "mlp"), (6, "fit"), (5, "sgd"), (1, "params"), (1, "zero"), (1, "upd"), (1, "setp"), (1, "setf"), (1, "backward"), (1, "grad")],
        shapes: shapes(2, 12, 0, 20, 4),
        steps: 22,
        obs: 25,
        misfit: 6,
        special: 0,
    },
    Profile {
        name: "memory",
        types: FLOAT,
        ops: &[(2, "pipe"), (4, "rcleaf"), (2, "leaf"), (3, "add"), (2, "sub"), (1, "neg"), (3, "rcbmm"), (1, "bmm"), (2, "fdot"), (3, "rcsum"), (1, "sum"), (3, "map"),
               (4, "backward"), (2, "zero"), (2, "upd"), (2, "grad"), (1, "clone"), (1, "deep_clone"), (1, "to_tensor"), (1, "deref"), (1, "mul"), (1, "emul"),
               (1, "smul"), (2, "view"), (1, "reshape"), (1, "show"), (1, "iter"), (1, "get"), (1, "eq"), (1, "badnew"), (1, "gun"), (3, "lin"), (2, "mlp"),
               (3, "fwd"), (3, "fit"), (3, "sgd"), (2, "params"), (1, "setp"), (1, "setf"), (1, "fdotnd"), (1, "rdot")],
        shapes: shapes(4, 24, 2, 25, 7),
        steps: 16,
        obs: 0,
        misfit: 8,
        special: 0,
    },
    Profile {
        name: "models",
        types: FLOAT,
        ops: &[(1, "pipe"), (2, "rcleaf"), (4, "lin"), (4, "mlp"), (8, "fwd"), (3, "params"), (3, "setp"), (2, "setf"), (1, "backward"), (1, "clone")],
        shapes: shapes(3, 20, 0, 20, 5),
        steps: 25,
        obs: 10,
        misfit: 15,
        special: 0,
    },
    Profile {
        name: "train",
        types: FLOAT,
        ops: &[],
        shapes: shapes(2, 9, 0, 20, 3),
        steps: 12,
        obs: 0,
        misfit: 0,
        special: 0,
    },
    Profile {
        name: "long_life_train",
        types: FLOAT,
        ops: &[],
        shapes: shapes(2, 6, 0, 20, 2),
        steps: 1000,
        obs: 0,
        misfit: 0,
        special: 0,
    },
    Profile {
        name: "long_train",
        types: FLOAT,
        ops: &[],
        shapes: shapes(2, 6, 0, 20, 2),
        steps: 130,
        obs: 0,
        misfit: 0,
        special: 0,
    },
    Profile {
        name: "equality",
        types: &["f64", "f32", "i32", "u8", "i64"],
        ops: &[(4, "leaf"), (2, "view"), (2, "reshape"), (12, "eq"), (3, "sshape"), (1, "backward"), (1, "upd"), (1, "clone"), (1, "rcsum"), (1, "to_tensor")],
        shapes: shapes(4, 30, 3, 20, 6),
        steps: 25,
        obs: 0,
        misfit: 15,
        special: 10,
    },
];

/// The profile of that name; `X_big` that is not listed is X on large tensors,
/// `X_rank` is X on tensors of many dimensions,
/// `X_vast` is X on tensors of up to 75,000 elements.
pub fn find(name: &str) -> Profile {
    if let Some(p) = PROFILES.iter().find(|p| p.name == name) {
        return p.clone();
    }
    if let Some(base) = name.strip_prefix("dyadic_").or_else(|| name.strip_prefix("dyadic64_")) {
        let p = PROFILES.iter().find(|p| p.name == base).expect("profile").clone();
        let shapes = Shapes { max_rank: p.shapes.max_rank.min(3), max_size: p.shapes.max_size.min(12), max_dim: p.shapes.max_dim.min(4), ..p.shapes };
        let types = if name.starts_with("dyadic64") { &["f64"] } else { FLOAT };
        return Profile { name: name.to_string().leak(), types, shapes, special: 0, ..p };
    }
    if let Some(base) = name.strip_suffix("_rank") {
        let p = PROFILES.iter().find(|p| p.name == base).expect("profile").clone();
        let shapes = Shapes { max_rank: 12, max_size: p.shapes.max_size.min(48), one: 55, max_dim: p.shapes.max_dim.min(4), ..p.shapes };
        return Profile { name: name.to_string().leak(), shapes, steps: p.steps.min(12), ..p };
    }
    if let Some(base) = name.strip_suffix("_vast") {
        let p = PROFILES.iter().find(|p| p.name == base).expect("profile").clone();
        let shapes = Shapes { max_rank: p.shapes.max_rank.min(3), max_size: 75_000, max_dim: 200, zero: 0, one: 10 };
        let mut ops: Vec<_> = p.ops.iter().filter(|o| !["badnew", "sweep", "clone", "deref", "tensor"].contains(&o.1)).cloned().collect();
        if base == "views" {
            ops.extend([(3, "iter"), (3, "to_tensor"), (3, "sum"), (3, "fdotnd"), (2, "add")]);
        }
        return Profile { name: name.to_string().leak(), shapes, ops: ops.leak(), steps: 5, obs: 0, misfit: 5, ..p };
    }
    let base = name.strip_suffix("_big").expect("profile");
    let p = PROFILES.iter().find(|p| p.name == base).expect("profile").clone();
    let shapes = Shapes { max_size: 2500, max_dim: 300, zero: 0, ..p.shapes };
    Profile { name: name.to_string().leak(), shapes, steps: 6, misfit: p.misfit / 3, ..p }
}
