#![allow(dead_code)]
use hyperdrive::FromRequest as Derive;
macro_rules! mk {
    ($name:ident, $p:literal, $v:ident, $f:ident, $t:ty) => {
        #[derive(Derive)]
        pub enum $name {
            #[get($p)]
            $v { $f: $t },
            #[delete("/del")]
            Other,
        }
    };
}
mk!(M1, "/x/{a}", V, a, u8);
mk!(M2, "/y/{b...}", V2, b, String);
mod inner {
    // nothing imported
    #[derive(hyperdrive::FromRequest)]
    pub(super) enum Deep {
        #[get("/")]
        Index,
        #[get("/{a}/{b}/{c}/{d}/{e}/{f}")]
        Many { f: u8, e: i8, d: u16, c: char, b: bool, a: std::net::IpAddr },
        #[options("*")]
        Star,
    }
    #[derive(hyperdrive::RequestContext)]
    pub(super) struct C;
}
fn local() {
    #[derive(hyperdrive::FromRequest)]
    #[get("/local")]
    struct L;
}
pub fn check(_: &mut Vec<String>) {}
