//! The base letters of the Latin letters that candidate normalization is about
//! (fzf's `normalize.go`): for every code point of three blocks the ASCII letter it
//! stands for, or `.` if it only stands for itself.  A snapshot: nothing in it is
//! read from norm's sources when a check runs.

pub const BLOCKS: [(u32, u32); 3] = [(0x00c0, 0x036f), (0x1d00, 0x1ef9), (0x2071, 0x2184)];

pub static B0: &[u8; 688] = b"\
    AAAAAA.CEEEEIIII.NOOOOO.OUUUUY.saaaaaa.ceeeeiiii.nooooo.ouuuuy.y.a.a.a.c\
    .c.c.c.d.d.e.e.e.e.e.g.g.g.g.h.h.i.i.i.iIi...j.k..l.l.l.l.l.n.n.n....o.o\
    .o...r.r.r.s.s.s.s.t.t.t.u.u.u.u.u.u.w.yY.z.z.zsbB.b..O.cDD.d.E.E.fG...I\
    .kl.MNnO.o...p.....t.tT.u.V.y.z.......................a.i.o.u........e..\
    .....g.g.k.o....j....g...n.......a.a.e.e.i.i.o.o.r.r.u.u.s.t...hNd...z.a\
    .e.....o...ylntj..ACcLTsz..BUVEeJjQqRrYyaa.bocdde..eeeejggG..hh.i.Illl.m\
    mmnnNo...rrrrrrrRRs....ttu.vvwyYzz.....c.BeGHjkLq.............h.........\
    ........................................................................\
    ........................................................................\
    ...........................aeioucdhmrtvx";

pub static B1: &[u8; 506] = b"\
    A..BCD.EeiJKLMNOOooo..ooPRRTUuumVWZ.....................................\
    ..........................iruv..........................................\
    ........................................................................\
    .........................................a.b.b.b...d.d.d.d.d.....e.e...f\
    .g.h.h.h.h.h.i...k.k.k.l...l.l.m.m.m.n.n.n.n.........p.p.r.r...r.s.s....\
    ...t.t.t.t.u.u.u.....v.v.w.w.w.w.w.x.x.y.z.z.zhtwyas.....a.aAaAaAaAaAaAa\
    AaAaAaAa.e.e.eEeEeEeEeEe.i.i.o.oOoOoOoOoOoOoOoOoOoOo.u.uUuUuUuUuUu.y.y.y\
    .y";

pub static B2: &[u8; 276] = b"\
    i...................................hklmnpst............................\
    ........................................................................\
    ........................................................................\
    ...........................................................c";
