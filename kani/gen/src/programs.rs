//! Written by mkgen.py.
#![allow(dead_code)]
use crate::env::*;
use hyperdrive::{FromRequest, NoContext};

#[derive(FromRequest)]
pub enum Basic {
    #[get("/")] Index,
    #[get("/u/{a}")] GetU { a: P0, g: G0, h: G1 },
    #[post("/u/{b}")] PostU { #[body] body: B, b: P1 },
     Never,
    #[put("/x/{b}/{a}")] #[delete("/y/{b}/{a...}")] Two { a: P0, #[query_params] q: Q, b: P1, g: G0 },
    #[options("*")] Star,
    #[head("/h.x")] Head,
    #[get("/h.x")] Get { #[query_params] q: Q },
    #[post("/x/{a}/{b}")] S { b: P1, a: P2 },
}

#[derive(FromRequest)]
pub enum Fall {
    #[post("/u/{a}")] A { a: P0, #[forward] f: F },
    #[put("/u/{b}")] C { b: P1, g: G0 },
    #[get("/s")] S,
     Fb { #[forward] f: F, g: G1 },
}

#[derive(FromRequest)]
#[context(Cx)] #[get("/c/{r...}")]
pub struct Ctx { #[query_params] pub q: Q, pub g: C0, pub h: G0, #[body] pub b: BC, pub r: P2, pub i: C1 }

#[derive(FromRequest)]
#[context(Cx)] pub enum CtxFall {
    #[get("/v/{a}")] #[patch("/w/{a}")] V { a: P0, c: C0, #[forward] f: FC },
     Fb { #[forward] f: FC, c: C0 },
}

#[derive(FromRequest)]
pub enum Gen<T, U, V> {
    #[get("/g/{a}")] X { a: T, g: U, #[body] b: V },
    #[post("/g/{b}")] Y { b: P1, g: G1 },
}

#[derive(FromRequest)]

pub struct Only { #[forward] pub f: F, pub g: G0 }
