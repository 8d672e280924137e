//! Written by mkgen.py: one proof per program and class of request paths.
use crate::{env::*, programs::*, spec::*};
use futures::{Async, Future};
use hyperdrive::{FromRequest, NoContext};

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_none_other() {
    crate::tables::basic_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    not_found(err(&r));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_index_get() {
    crate::tables::basic_index();
    let i = input(Some(0));
    plan(0, 0, 0, false);
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Index)) => {  }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_index_head() {
    crate::tables::basic_index();
    let i = input(Some(1));
    plan(0, 0, 0, false);
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Index)) => {  }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_index_other() {
    crate::tables::basic_index();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1);
    plan(0, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (1 << 0) | (1 << 1));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_get_bad0() {
    crate::tables::basic_u();
    let i = input(Some(0));
    plan(1 << 0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(5, 1, &i);
            if fails(5) { stage_failed(5, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::GetU { a, g, h })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[5].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [4]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_get_bad4() {
    crate::tables::basic_u();
    let i = input(Some(0));
    plan(1 << 4, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(5, 1, &i);
            if fails(5) { stage_failed(5, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::GetU { a, g, h })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[5].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [5]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_get_bad5() {
    crate::tables::basic_u();
    let i = input(Some(0));
    plan(1 << 5, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(5, 1, &i);
            if fails(5) { stage_failed(5, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::GetU { a, g, h })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[5].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_get() {
    crate::tables::basic_u();
    let i = input(Some(0));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(5, 1, &i);
            if fails(5) { stage_failed(5, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::GetU { a, g, h })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[5].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: [4]
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_get_pend4() {
    crate::tables::basic_u();
    let i = input(Some(0));
    plan(0, 1 << 4, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[4].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(5, 1, &i);
            if fails(5) { stage_failed(5, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::GetU { a, g, h })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[5].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: [5]
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_get_pend5() {
    crate::tables::basic_u();
    let i = input(Some(0));
    plan(0, 1 << 5, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[5].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(5, 1, &i);
            if fails(5) { stage_failed(5, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::GetU { a, g, h })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[5].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: [5]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_head_bad5() {
    crate::tables::basic_u();
    let i = input(Some(1));
    plan(1 << 5, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(5, 1, &i);
            if fails(5) { stage_failed(5, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::GetU { a, g, h })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[5].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_head() {
    crate::tables::basic_u();
    let i = input(Some(1));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(5, 1, &i);
            if fails(5) { stage_failed(5, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::GetU { a, g, h })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[5].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_post_bad1() {
    crate::tables::basic_u();
    let i = input(Some(2));
    plan(1 << 1, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(8, 0, &i);
            if fails(8) { stage_failed(8, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::PostU { body, b })) => { assert!(unsafe { body.0 == PLAN[8].val }, "C07 field `body` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [8]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_post_bad8() {
    crate::tables::basic_u();
    let i = input(Some(2));
    plan(1 << 8, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(8, 0, &i);
            if fails(8) { stage_failed(8, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::PostU { body, b })) => { assert!(unsafe { body.0 == PLAN[8].val }, "C07 field `body` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_post() {
    crate::tables::basic_u();
    let i = input(Some(2));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(8, 0, &i);
            if fails(8) { stage_failed(8, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::PostU { body, b })) => { assert!(unsafe { body.0 == PLAN[8].val }, "C07 field `body` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: []; forward kind 0; query decodes; pending: [8]
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_post_pend8() {
    crate::tables::basic_u();
    let i = input(Some(2));
    plan(0, 1 << 8, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[8].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(8, 0, &i);
            if fails(8) { stage_failed(8, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::PostU { body, b })) => { assert!(unsafe { body.0 == PLAN[8].val }, "C07 field `body` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_other() {
    crate::tables::basic_u();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1 && i.method != 2);
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }) | (if fails(1) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_other_bad0() {
    crate::tables::basic_u();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1 && i.method != 2);
    plan(1 << 0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }) | (if fails(1) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_other_bad1() {
    crate::tables::basic_u();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1 && i.method != 2);
    plan(1 << 1, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }) | (if fails(1) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_u_other_bad0_bad1() {
    crate::tables::basic_u();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1 && i.method != 2);
    plan(1 << 0 | 1 << 1, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }) | (if fails(1) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_put_bad0() {
    crate::tables::basic_x();
    let i = input(Some(3));
    plan(1 << 0, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: [1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_put_bad1() {
    crate::tables::basic_x();
    let i = input(Some(3));
    plan(1 << 1, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: [0, 1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_put_bad0_bad1() {
    crate::tables::basic_x();
    let i = input(Some(3));
    plan(1 << 0 | 1 << 1, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: []; forward kind 0; query fails; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_put_query() {
    crate::tables::basic_x();
    let i = input(Some(3));
    plan(0, 0, 0, true);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: [4]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_put_bad4() {
    crate::tables::basic_x();
    let i = input(Some(3));
    plan(1 << 4, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_put() {
    crate::tables::basic_x();
    let i = input(Some(3));
    plan(0, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: []; forward kind 0; query decodes; pending: [4]
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_put_pend4() {
    crate::tables::basic_x();
    let i = input(Some(3));
    plan(0, 1 << 4, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[4].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_post_bad1() {
    crate::tables::basic_x();
    let i = input(Some(2));
    plan(1 << 1, 0, 0, false);
    unsafe { POS[2] = 0; }
    unsafe { POS[1] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) || fails(2) {
        path_failed(err(&r), (1 << 1) | (1 << 2));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::S { b, a })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { a.0 == PLAN[2].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [2]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_post_bad2() {
    crate::tables::basic_x();
    let i = input(Some(2));
    plan(1 << 2, 0, 0, false);
    unsafe { POS[2] = 0; }
    unsafe { POS[1] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) || fails(2) {
        path_failed(err(&r), (1 << 1) | (1 << 2));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::S { b, a })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { a.0 == PLAN[2].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [1, 2]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_post_bad1_bad2() {
    crate::tables::basic_x();
    let i = input(Some(2));
    plan(1 << 1 | 1 << 2, 0, 0, false);
    unsafe { POS[2] = 0; }
    unsafe { POS[1] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) || fails(2) {
        path_failed(err(&r), (1 << 1) | (1 << 2));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::S { b, a })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { a.0 == PLAN[2].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_post() {
    crate::tables::basic_x();
    let i = input(Some(2));
    plan(0, 0, 0, false);
    unsafe { POS[2] = 0; }
    unsafe { POS[1] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) || fails(2) {
        path_failed(err(&r), (1 << 1) | (1 << 2));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::S { b, a })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { a.0 == PLAN[2].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_other() {
    crate::tables::basic_x();
    let i = input(None);
    kani::assume(i.method != 3 && i.method != 2);
    plan(0, 0, 0, false);
    unsafe { ANYPOS = true; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 3 }) | (if fails(1) || fails(2) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_other_bad0() {
    crate::tables::basic_x();
    let i = input(None);
    kani::assume(i.method != 3 && i.method != 2);
    plan(1 << 0, 0, 0, false);
    unsafe { ANYPOS = true; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 3 }) | (if fails(1) || fails(2) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_other_bad1() {
    crate::tables::basic_x();
    let i = input(None);
    kani::assume(i.method != 3 && i.method != 2);
    plan(1 << 1, 0, 0, false);
    unsafe { ANYPOS = true; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 3 }) | (if fails(1) || fails(2) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_other_bad0_bad1() {
    crate::tables::basic_x();
    let i = input(None);
    kani::assume(i.method != 3 && i.method != 2);
    plan(1 << 0 | 1 << 1, 0, 0, false);
    unsafe { ANYPOS = true; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 3 }) | (if fails(1) || fails(2) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [2]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_other_bad2() {
    crate::tables::basic_x();
    let i = input(None);
    kani::assume(i.method != 3 && i.method != 2);
    plan(1 << 2, 0, 0, false);
    unsafe { ANYPOS = true; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 3 }) | (if fails(1) || fails(2) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 2]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_other_bad0_bad2() {
    crate::tables::basic_x();
    let i = input(None);
    kani::assume(i.method != 3 && i.method != 2);
    plan(1 << 0 | 1 << 2, 0, 0, false);
    unsafe { ANYPOS = true; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 3 }) | (if fails(1) || fails(2) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [1, 2]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_other_bad1_bad2() {
    crate::tables::basic_x();
    let i = input(None);
    kani::assume(i.method != 3 && i.method != 2);
    plan(1 << 1 | 1 << 2, 0, 0, false);
    unsafe { ANYPOS = true; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 3 }) | (if fails(1) || fails(2) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 1, 2]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_x_other_bad0_bad1_bad2() {
    crate::tables::basic_x();
    let i = input(None);
    kani::assume(i.method != 3 && i.method != 2);
    plan(1 << 0 | 1 << 1 | 1 << 2, 0, 0, false);
    unsafe { ANYPOS = true; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 3 }) | (if fails(1) || fails(2) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// DELETE; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_delete_bad0() {
    crate::tables::basic_y();
    let i = input(Some(4));
    plan(1 << 0, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// DELETE; failing: [1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_delete_bad1() {
    crate::tables::basic_y();
    let i = input(Some(4));
    plan(1 << 1, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// DELETE; failing: [0, 1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_delete_bad0_bad1() {
    crate::tables::basic_y();
    let i = input(Some(4));
    plan(1 << 0 | 1 << 1, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// DELETE; failing: []; forward kind 0; query fails; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_delete_query() {
    crate::tables::basic_y();
    let i = input(Some(4));
    plan(0, 0, 0, true);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// DELETE; failing: [4]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_delete_bad4() {
    crate::tables::basic_y();
    let i = input(Some(4));
    plan(1 << 4, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// DELETE; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_delete() {
    crate::tables::basic_y();
    let i = input(Some(4));
    plan(0, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// DELETE; failing: []; forward kind 0; query decodes; pending: [4]
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_delete_pend4() {
    crate::tables::basic_y();
    let i = input(Some(4));
    plan(0, 1 << 4, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[4].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) || fails(1) {
        path_failed(err(&r), (1 << 0) | (1 << 1));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Two { a, q, b, g })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_other() {
    crate::tables::basic_y();
    let i = input(None);
    kani::assume(i.method != 4);
    plan(0, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 4 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_other_bad0() {
    crate::tables::basic_y();
    let i = input(None);
    kani::assume(i.method != 4);
    plan(1 << 0, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 4 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_other_bad1() {
    crate::tables::basic_y();
    let i = input(None);
    kani::assume(i.method != 4);
    plan(1 << 1, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 4 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_y_other_bad0_bad1() {
    crate::tables::basic_y();
    let i = input(None);
    kani::assume(i.method != 4);
    plan(1 << 0 | 1 << 1, 0, 0, false);
    unsafe { POS[1] = 0; }
    unsafe { POS[0] = 1; }
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) || fails(1) { 0 } else { 1 << 4 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// OPTIONS; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_star_options() {
    crate::tables::basic_star();
    let i = input(Some(6));
    plan(0, 0, 0, false);
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Star)) => {  }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_star_other() {
    crate::tables::basic_star();
    let i = input(None);
    kani::assume(i.method != 6);
    plan(0, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (1 << 6));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query fails; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_h_get_query() {
    crate::tables::basic_h();
    let i = input(Some(0));
    plan(0, 0, 0, true);
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        query(); if query_fails() { query_failed(err(&r)); } else {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Get { q })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_h_get() {
    crate::tables::basic_h();
    let i = input(Some(0));
    plan(0, 0, 0, false);
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        query(); if query_fails() { query_failed(err(&r)); } else {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Get { q })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_h_head() {
    crate::tables::basic_h();
    let i = input(Some(1));
    plan(0, 0, 0, false);
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Basic::Head)) => {  }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn basic_h_other() {
    crate::tables::basic_h();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1);
    plan(0, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Basic>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (1 << 0) | (1 << 1));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [5]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_none_other_bad5() {
    crate::tables::fall_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 5, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_none_other_bad9() {
    crate::tables::fall_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 1; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_none_other_bad9_kind1() {
    crate::tables::fall_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 1, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_none_other_bad9_kind2() {
    crate::tables::fall_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 2, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_none_other_bad9_kind3() {
    crate::tables::fall_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 3, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_none_other() {
    crate::tables::fall_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [5]
#[kani::proof]
#[kani::unwind(1)]
fn fall_none_other_pend5() {
    crate::tables::fall_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 1 << 5, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[5].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [9]
#[kani::proof]
#[kani::unwind(1)]
fn fall_none_other_pend9() {
    crate::tables::fall_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 1 << 9, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[9].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_post_bad0() {
    crate::tables::fall_u();
    let i = input(Some(2));
    plan(1 << 0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(9, 0, &i);
            if fails(9) { forward_failed(err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::A { a, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [9]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_post_bad9() {
    crate::tables::fall_u();
    let i = input(Some(2));
    plan(1 << 9, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(9, 0, &i);
            if fails(9) { forward_failed(err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::A { a, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [9]; forward kind 1; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_post_bad9_kind1() {
    crate::tables::fall_u();
    let i = input(Some(2));
    plan(1 << 9, 0, 1, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(9, 0, &i);
            if fails(9) { forward_failed(err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::A { a, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_post_bad9_kind2() {
    crate::tables::fall_u();
    let i = input(Some(2));
    plan(1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(9, 0, &i);
            if fails(9) { forward_failed(err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::A { a, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_post_bad9_kind3() {
    crate::tables::fall_u();
    let i = input(Some(2));
    plan(1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(9, 0, &i);
            if fails(9) { forward_failed(err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::A { a, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_post() {
    crate::tables::fall_u();
    let i = input(Some(2));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(9, 0, &i);
            if fails(9) { forward_failed(err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::A { a, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: []; forward kind 0; query decodes; pending: [9]
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_post_pend9() {
    crate::tables::fall_u();
    let i = input(Some(2));
    plan(0, 1 << 9, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[9].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(9, 0, &i);
            if fails(9) { forward_failed(err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::A { a, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: [1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_put_bad1() {
    crate::tables::fall_u();
    let i = input(Some(3));
    plan(1 << 1, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::C { b, g })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: [4]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_put_bad4() {
    crate::tables::fall_u();
    let i = input(Some(3));
    plan(1 << 4, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::C { b, g })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_put() {
    crate::tables::fall_u();
    let i = input(Some(3));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::C { b, g })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PUT; failing: []; forward kind 0; query decodes; pending: [4]
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_put_pend4() {
    crate::tables::fall_u();
    let i = input(Some(3));
    plan(0, 1 << 4, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[4].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::C { b, g })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [5]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad5() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 5, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad9() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 9, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 1; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad9_kind1() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 9, 0, 1, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad9_kind2() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad9_kind3() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other() {
    crate::tables::fall_u();
    let i = input(None);
    kani::assume(i.method != 2 && i.method != 3);
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [5]
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_pend5() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(0, 1 << 5, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[5].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [9]
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_pend9() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(0, 1 << 9, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[9].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad0_bad9_kind2() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 0 | 1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad0_bad9_kind3() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 0 | 1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [1, 9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad1_bad9_kind2() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 1 | 1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [1, 9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad1_bad9_kind3() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 1 | 1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 1, 9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad0_bad1_bad9_kind2() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 0 | 1 << 1 | 1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 1, 9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_u_other_bad0_bad1_bad9_kind3() {
    crate::tables::fall_u();
    let i = input(Some(7));
    plan(1 << 0 | 1 << 1 | 1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 2 }) | (if fails(1) { 0 } else { 1 << 3 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_s_get() {
    crate::tables::fall_s();
    let i = input(Some(0));
    plan(0, 0, 0, false);
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::S)) => {  }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_s_head() {
    crate::tables::fall_s();
    let i = input(Some(1));
    plan(0, 0, 0, false);
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            unsafe { assert!(CLOCK == 0, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::S)) => {  }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [5]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_s_other_bad5() {
    crate::tables::fall_s();
    let i = input(Some(7));
    plan(1 << 5, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (1 << 0) | (1 << 1), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_s_other_bad9() {
    crate::tables::fall_s();
    let i = input(Some(7));
    plan(1 << 9, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (1 << 0) | (1 << 1), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 1; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_s_other_bad9_kind1() {
    crate::tables::fall_s();
    let i = input(Some(7));
    plan(1 << 9, 0, 1, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (1 << 0) | (1 << 1), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_s_other_bad9_kind2() {
    crate::tables::fall_s();
    let i = input(Some(7));
    plan(1 << 9, 0, 2, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (1 << 0) | (1 << 1), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_s_other_bad9_kind3() {
    crate::tables::fall_s();
    let i = input(Some(7));
    plan(1 << 9, 0, 3, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (1 << 0) | (1 << 1), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn fall_s_other() {
    crate::tables::fall_s();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1);
    plan(0, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (1 << 0) | (1 << 1), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [5]
#[kani::proof]
#[kani::unwind(1)]
fn fall_s_other_pend5() {
    crate::tables::fall_s();
    let i = input(Some(7));
    plan(0, 1 << 5, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[5].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (1 << 0) | (1 << 1), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [9]
#[kani::proof]
#[kani::unwind(1)]
fn fall_s_other_pend9() {
    crate::tables::fall_s();
    let i = input(Some(7));
    plan(0, 1 << 9, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Fall>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[9].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { merged(err(&r), (1 << 0) | (1 << 1), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Fall::Fb { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_none_other() {
    crate::tables::ctx_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 0, 0, false);
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    not_found(err(&r));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [2]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get_bad2() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(1 << 2, 0, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query fails; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get_query() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(0, 0, 0, true);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [6]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get_bad6() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(1 << 6, 0, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [4]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get_bad4() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(1 << 4, 0, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [7]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get_bad7() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(1 << 7, 0, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [8]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get_bad8() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(1 << 8, 0, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(0, 0, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: [6]
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get_pend6() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(0, 1 << 6, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[6].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: [4]
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get_pend4() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(0, 1 << 4, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[4].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: [7]
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get_pend7() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(0, 1 << 7, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[7].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: [8]
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_get_pend8() {
    crate::tables::ctx_c();
    let i = input(Some(0));
    plan(0, 1 << 8, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[8].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: [8]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_head_bad8() {
    crate::tables::ctx_c();
    let i = input(Some(1));
    plan(1 << 8, 0, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_head() {
    crate::tables::ctx_c();
    let i = input(Some(1));
    plan(0, 0, 0, false);
    unsafe { POS[2] = 0; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(2) {
        path_failed(err(&r), (1 << 2));
    } else {
        query(); if query_fails() { query_failed(err(&r)); } else {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(4, 1, &i);
            if fails(4) { stage_failed(4, err(&r), 2); } else {
            stage(7, 2, &i);
            context(7, cx.x.0, 0);
            if fails(7) { stage_failed(7, err(&r), 3); } else {
            stage(8, 3, &i);
            context(8, cx.o.0, 0);
            if fails(8) { stage_failed(8, err(&r), 4); } else {
            unsafe { assert!(CLOCK == 8, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Ctx { q, g, h, b, r, i })) => { assert!(unsafe { q.0 == serde_urlencoded::VALUE }, "C06 field `q` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[6].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { h.0 == PLAN[4].val }, "C07 field `h` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { r.0 == PLAN[2].val }, "C05 field `r` holds what was decoded for it"); assert!(unsafe { i.0 == PLAN[7].val }, "C07 field `i` holds what was decoded for it"); assert!(unsafe { SEEN[2].starts } > 0, "C05 placeholder field 2 was converted"); }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            }}}}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_other() {
    crate::tables::ctx_c();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1);
    plan(0, 0, 0, false);
    unsafe { POS[2] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    wrong_method(err(&r), (if fails(2) { 0 } else { 1 << 0 }) | (if fails(2) { 0 } else { 1 << 1 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [2]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctx_c_other_bad2() {
    crate::tables::ctx_c();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1);
    plan(1 << 2, 0, 0, false);
    unsafe { POS[2] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <Ctx>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    wrong_method(err(&r), (if fails(2) { 0 } else { 1 << 0 }) | (if fails(2) { 0 } else { 1 << 1 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [6]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_none_other_bad6() {
    crate::tables::ctxfall_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 6, 0, 0, false);
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_none_other_bad9() {
    crate::tables::ctxfall_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 0, false);
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 1; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_none_other_bad9_kind1() {
    crate::tables::ctxfall_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 1, false);
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_none_other_bad9_kind2() {
    crate::tables::ctxfall_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 2, false);
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_none_other_bad9_kind3() {
    crate::tables::ctxfall_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 3, false);
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_none_other() {
    crate::tables::ctxfall_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 0, 0, false);
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [6]
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_none_other_pend6() {
    crate::tables::ctxfall_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 1 << 6, 0, false);
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[6].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [9]
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_none_other_pend9() {
    crate::tables::ctxfall_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 1 << 9, 0, false);
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[9].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_get_bad0() {
    crate::tables::ctxfall_v();
    let i = input(Some(0));
    plan(1 << 0, 0, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [6]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_get_bad6() {
    crate::tables::ctxfall_v();
    let i = input(Some(0));
    plan(1 << 6, 0, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [9]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_get_bad9() {
    crate::tables::ctxfall_v();
    let i = input(Some(0));
    plan(1 << 9, 0, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [9]; forward kind 1; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_get_bad9_kind1() {
    crate::tables::ctxfall_v();
    let i = input(Some(0));
    plan(1 << 9, 0, 1, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_get_bad9_kind2() {
    crate::tables::ctxfall_v();
    let i = input(Some(0));
    plan(1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_get_bad9_kind3() {
    crate::tables::ctxfall_v();
    let i = input(Some(0));
    plan(1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_get() {
    crate::tables::ctxfall_v();
    let i = input(Some(0));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: [6]
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_get_pend6() {
    crate::tables::ctxfall_v();
    let i = input(Some(0));
    plan(0, 1 << 6, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[6].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: [9]
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_get_pend9() {
    crate::tables::ctxfall_v();
    let i = input(Some(0));
    plan(0, 1 << 9, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[9].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_head_bad9_kind3() {
    crate::tables::ctxfall_v();
    let i = input(Some(1));
    plan(1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_head() {
    crate::tables::ctxfall_v();
    let i = input(Some(1));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [6]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_other_bad6() {
    crate::tables::ctxfall_v();
    let i = input(Some(7));
    plan(1 << 6, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_other_bad9() {
    crate::tables::ctxfall_v();
    let i = input(Some(7));
    plan(1 << 9, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 1; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_other_bad9_kind1() {
    crate::tables::ctxfall_v();
    let i = input(Some(7));
    plan(1 << 9, 0, 1, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_other_bad9_kind2() {
    crate::tables::ctxfall_v();
    let i = input(Some(7));
    plan(1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_other_bad9_kind3() {
    crate::tables::ctxfall_v();
    let i = input(Some(7));
    plan(1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_other() {
    crate::tables::ctxfall_v();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1);
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [6]
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_other_pend6() {
    crate::tables::ctxfall_v();
    let i = input(Some(7));
    plan(0, 1 << 6, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[6].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [9]
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_other_pend9() {
    crate::tables::ctxfall_v();
    let i = input(Some(7));
    plan(0, 1 << 9, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[9].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_other_bad0_bad9_kind2() {
    crate::tables::ctxfall_v();
    let i = input(Some(7));
    plan(1 << 0 | 1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_v_other_bad0_bad9_kind3() {
    crate::tables::ctxfall_v();
    let i = input(Some(7));
    plan(1 << 0 | 1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PATCH; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_patch_bad0() {
    crate::tables::ctxfall_w();
    let i = input(Some(8));
    plan(1 << 0, 0, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PATCH; failing: [6]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_patch_bad6() {
    crate::tables::ctxfall_w();
    let i = input(Some(8));
    plan(1 << 6, 0, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PATCH; failing: [9]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_patch_bad9() {
    crate::tables::ctxfall_w();
    let i = input(Some(8));
    plan(1 << 9, 0, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PATCH; failing: [9]; forward kind 1; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_patch_bad9_kind1() {
    crate::tables::ctxfall_w();
    let i = input(Some(8));
    plan(1 << 9, 0, 1, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PATCH; failing: [9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_patch_bad9_kind2() {
    crate::tables::ctxfall_w();
    let i = input(Some(8));
    plan(1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PATCH; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_patch_bad9_kind3() {
    crate::tables::ctxfall_w();
    let i = input(Some(8));
    plan(1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PATCH; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_patch() {
    crate::tables::ctxfall_w();
    let i = input(Some(8));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PATCH; failing: []; forward kind 0; query decodes; pending: [6]
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_patch_pend6() {
    crate::tables::ctxfall_w();
    let i = input(Some(8));
    plan(0, 1 << 6, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[6].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// PATCH; failing: []; forward kind 0; query decodes; pending: [9]
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_patch_pend9() {
    crate::tables::ctxfall_w();
    let i = input(Some(8));
    plan(0, 1 << 9, 0, false);
    unsafe { POS[0] = 0; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[9].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::V { a, c, f })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [6]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_other_bad6() {
    crate::tables::ctxfall_w();
    let i = input(Some(7));
    plan(1 << 6, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 8 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_other_bad9() {
    crate::tables::ctxfall_w();
    let i = input(Some(7));
    plan(1 << 9, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 8 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 1; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_other_bad9_kind1() {
    crate::tables::ctxfall_w();
    let i = input(Some(7));
    plan(1 << 9, 0, 1, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 8 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_other_bad9_kind2() {
    crate::tables::ctxfall_w();
    let i = input(Some(7));
    plan(1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 8 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_other_bad9_kind3() {
    crate::tables::ctxfall_w();
    let i = input(Some(7));
    plan(1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 8 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_other() {
    crate::tables::ctxfall_w();
    let i = input(None);
    kani::assume(i.method != 8);
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 8 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [6]
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_other_pend6() {
    crate::tables::ctxfall_w();
    let i = input(Some(7));
    plan(0, 1 << 6, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[6].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 8 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [9]
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_other_pend9() {
    crate::tables::ctxfall_w();
    let i = input(Some(7));
    plan(0, 1 << 9, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[9].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 8 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_other_bad0_bad9_kind2() {
    crate::tables::ctxfall_w();
    let i = input(Some(7));
    plan(1 << 0 | 1 << 9, 0, 2, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 8 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn ctxfall_w_other_bad0_bad9_kind3() {
    crate::tables::ctxfall_w();
    let i = input(Some(7));
    plan(1 << 0 | 1 << 9, 0, 3, false);
    unsafe { POS[0] = 0; }
    unsafe { ANYTIME = true; }
    let cx = any_cx();
    let mut f = <CtxFall>::from_request_and_body(&i.req, i.body(), cx);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(6, 0, &i);
            context(6, cx.p.0, 0);
            if fails(6) { stage_failed(6, err(&r), 1); } else {
            stage(9, 1, &i);
            context(9, cx.p.0, cx.y.0);
            if fails(9) { merged(err(&r), (if fails(0) { 0 } else { 1 << 8 }), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(CtxFall::Fb { f, c })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { c.0 == PLAN[6].val }, "C07 field `c` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_get_bad0() {
    crate::tables::gen_g();
    let i = input(Some(0));
    plan(1 << 0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(8, 1, &i);
            if fails(8) { stage_failed(8, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::X { a, g, b })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [4]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_get_bad4() {
    crate::tables::gen_g();
    let i = input(Some(0));
    plan(1 << 4, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(8, 1, &i);
            if fails(8) { stage_failed(8, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::X { a, g, b })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: [8]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_get_bad8() {
    crate::tables::gen_g();
    let i = input(Some(0));
    plan(1 << 8, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(8, 1, &i);
            if fails(8) { stage_failed(8, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::X { a, g, b })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_get() {
    crate::tables::gen_g();
    let i = input(Some(0));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(8, 1, &i);
            if fails(8) { stage_failed(8, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::X { a, g, b })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: [4]
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_get_pend4() {
    crate::tables::gen_g();
    let i = input(Some(0));
    plan(0, 1 << 4, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[4].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(8, 1, &i);
            if fails(8) { stage_failed(8, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::X { a, g, b })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// GET; failing: []; forward kind 0; query decodes; pending: [8]
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_get_pend8() {
    crate::tables::gen_g();
    let i = input(Some(0));
    plan(0, 1 << 8, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[8].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(8, 1, &i);
            if fails(8) { stage_failed(8, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::X { a, g, b })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: [8]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_head_bad8() {
    crate::tables::gen_g();
    let i = input(Some(1));
    plan(1 << 8, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(8, 1, &i);
            if fails(8) { stage_failed(8, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::X { a, g, b })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// HEAD; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_head() {
    crate::tables::gen_g();
    let i = input(Some(1));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(0) {
        path_failed(err(&r), (1 << 0));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(8, 1, &i);
            if fails(8) { stage_failed(8, err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::X { a, g, b })) => { assert!(unsafe { a.0 == PLAN[0].val }, "C05 field `a` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { b.0 == PLAN[8].val }, "C07 field `b` holds what was decoded for it"); assert!(unsafe { SEEN[0].starts } > 0, "C05 placeholder field 0 was converted"); }
                _ => assert!(false, "C03 the matching route's variant is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_post_bad1() {
    crate::tables::gen_g();
    let i = input(Some(2));
    plan(1 << 1, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::Y { b, g })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: [5]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_post_bad5() {
    crate::tables::gen_g();
    let i = input(Some(2));
    plan(1 << 5, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::Y { b, g })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_post() {
    crate::tables::gen_g();
    let i = input(Some(2));
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::Y { b, g })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// POST; failing: []; forward kind 0; query decodes; pending: [5]
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_post_pend5() {
    crate::tables::gen_g();
    let i = input(Some(2));
    plan(0, 1 << 5, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[5].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    if fails(1) {
        path_failed(err(&r), (1 << 1));
    } else {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(5, 0, &i);
            if fails(5) { stage_failed(5, err(&r), 1); } else {
            unsafe { assert!(CLOCK == 2, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Gen::Y { b, g })) => { assert!(unsafe { b.0 == PLAN[1].val }, "C05 field `b` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[5].val }, "C07 field `g` holds what was decoded for it"); assert!(unsafe { SEEN[1].starts } > 0, "C05 placeholder field 1 was converted"); }
                _ => assert!(false, "C01 the matching route's variant is chosen"),
            }
            }
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_other() {
    crate::tables::gen_g();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1 && i.method != 2);
    plan(0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }) | (if fails(1) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_other_bad0() {
    crate::tables::gen_g();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1 && i.method != 2);
    plan(1 << 0, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }) | (if fails(1) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_other_bad1() {
    crate::tables::gen_g();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1 && i.method != 2);
    plan(1 << 1, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }) | (if fails(1) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [0, 1]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn gen_g_other_bad0_bad1() {
    crate::tables::gen_g();
    let i = input(None);
    kani::assume(i.method != 0 && i.method != 1 && i.method != 2);
    plan(1 << 0 | 1 << 1, 0, 0, false);
    unsafe { POS[0] = 0; }
    unsafe { POS[1] = 0; }
    unsafe { ANYTIME = true; }
    let mut f = <Gen<P0, G0, B>>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    wrong_method(err(&r), (if fails(0) { 0 } else { 1 << 0 }) | (if fails(0) { 0 } else { 1 << 1 }) | (if fails(1) { 0 } else { 1 << 2 }));
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [4]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn only_none_other_bad4() {
    crate::tables::only_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 4, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Only>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Only { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn only_none_other_bad9() {
    crate::tables::only_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Only>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Only { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 1; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn only_none_other_bad9_kind1() {
    crate::tables::only_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 1, false);
    unsafe { ANYTIME = true; }
    let mut f = <Only>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Only { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 2; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn only_none_other_bad9_kind2() {
    crate::tables::only_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 2, false);
    unsafe { ANYTIME = true; }
    let mut f = <Only>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Only { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: [9]; forward kind 3; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn only_none_other_bad9_kind3() {
    crate::tables::only_none();
    let i = input(None);
    kani::assume(true);
    plan(1 << 9, 0, 3, false);
    unsafe { ANYTIME = true; }
    let mut f = <Only>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Only { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: []
#[kani::proof]
#[kani::unwind(1)]
fn only_none_other() {
    crate::tables::only_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 0, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Only>::from_request_and_body(&i.req, i.body(), NoContext);
    let r = f.poll();
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Only { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [4]
#[kani::proof]
#[kani::unwind(1)]
fn only_none_other_pend4() {
    crate::tables::only_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 1 << 4, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Only>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[4].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Only { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

/// other methods; failing: []; forward kind 0; query decodes; pending: [9]
#[kani::proof]
#[kani::unwind(1)]
fn only_none_other_pend9() {
    crate::tables::only_none();
    let i = input(None);
    kani::assume(true);
    plan(0, 1 << 9, 0, false);
    unsafe { ANYTIME = true; }
    let mut f = <Only>::from_request_and_body(&i.req, i.body(), NoContext);
    let mut r = f.poll();
    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[9].starts == 1 }, "C07 pending while what was started is");
    std::mem::forget(std::mem::replace(&mut r, f.poll()));
    {
        assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {
            stage(4, 0, &i);
            if fails(4) { stage_failed(4, err(&r), 1); } else {
            stage(9, 1, &i);
            if fails(9) { forward_failed(err(&r), 2); } else {
            unsafe { assert!(CLOCK == 4, "C07 nothing else is started"); }
            match &r {
                Ok(Async::Ready(Only { f, g })) => { assert!(unsafe { f.0 == PLAN[9].val }, "C08 field `f` holds what was decoded for it"); assert!(unsafe { g.0 == PLAN[4].val }, "C07 field `g` holds what was decoded for it"); }
                _ => assert!(false, "C08 the fallback is chosen"),
            }
            }}
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, i));
}

