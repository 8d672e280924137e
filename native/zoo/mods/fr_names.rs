#![allow(dead_code, non_camel_case_types)]
use hyperdrive::{body::Json, FromRequest};
#[derive(FromRequest)]
enum Ok_ {
    #[get("/ok")]
    Ok,
    #[get("/err")]
    Err,
    #[get("/some/{x}")]
    Some { x: u8 },
    #[put("/none")]
    #[delete("/none")]
    None,
    #[patch("/box/{boxed...}")]
    #[post("/vec/{boxed...}")]
    r#match { boxed: String },
    Unused(),
    Unused2 {},
}
#[derive(FromRequest)]
enum Raw {
    #[get("/r/{a}")]
    #[post("/r/{a}")]
    r#type {
        #[body]
        r#fn: Json<u32>,
        a: u8,
    },
    F {
        #[forward]
        r#use: Ok_,
    },
}
pub fn check(_: &mut Vec<String>) {}
