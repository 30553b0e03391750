//! What is written by serialization is read back equal, whether struct members are matched by position or by name.
use crate::support::*;
use crate::tape::{Kind, Tape};
use ros_pointcloud2::points::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

fn round<T: Serialize + DeserializeOwned>(v: &T, named: bool) -> T {
    let mut t = Tape::new(named);
    assert!(v.serialize(&mut t).is_ok(), "serializes");
    let r = match T::deserialize(&mut t) {
        Ok(r) => r,
        Err(_) => {
            assert!(false, "what was serialized is read back");
            loop {}
        }
    };
    assert!(t.at == t.n, "everything that was written is read");
    r
}

fn f() -> f32 {
    f32::from_bits(kani::any())
}
macro_rules! point_round {
    ($by_place:ident, $by_name:ident, $n:literal, $t:ident, $make:expr) => {
        proof! {
        #[kani::unwind(24)]
        fn $by_place() {
            let p: $t = $make;
            let r = round(&p, false);
            let (a, b): (RPCL2Point<$n>, RPCL2Point<$n>) = (p.into(), r.into());
            for k in 0..$n {
                assert!(a[k].get::<u32>() == b[k].get::<u32>(), "every field is kept");
            }
            kani::cover!(true, "read back");
        }
        }
        proof! {
        #[kani::unwind(24)]
        fn $by_name() {
            let p: $t = $make;
            let r = round(&p, true);
            let (a, b): (RPCL2Point<$n>, RPCL2Point<$n>) = (p.into(), r.into());
            for k in 0..$n {
                assert!(a[k].get::<u32>() == b[k].get::<u32>(), "every field is kept");
            }
            kani::cover!(true, "read back");
        }
        }
    };
}
point_round!(c21_xyz, c21_named_xyz, 3, PointXYZ, PointXYZ::new(f(), f(), f()));
point_round!(c21_xyzi, c21_named_xyzi, 4, PointXYZI, PointXYZI::new(f(), f(), f(), f()));
point_round!(c21_xyzl, c21_named_xyzl, 4, PointXYZL, PointXYZL::new(f(), f(), f(), kani::any()));
point_round!(c21_xyzrgb, c21_named_xyzrgb, 4, PointXYZRGB, PointXYZRGB { x: f(), y: f(), z: f(), rgb: RGB::new_from_packed_f32(f()) });
point_round!(c21_xyzrgba, c21_named_xyzrgba, 5, PointXYZRGBA, PointXYZRGBA { x: f(), y: f(), z: f(), rgb: RGB::new_from_packed_f32(f()), a: kani::any() });
point_round!(c21_xyzrgbl, c21_named_xyzrgbl, 5, PointXYZRGBL, PointXYZRGBL { x: f(), y: f(), z: f(), rgb: RGB::new_from_packed_f32(f()), label: kani::any() });
point_round!(c21_xyznormal, c21_named_xyznormal, 6, PointXYZNormal, PointXYZNormal::new(f(), f(), f(), f(), f(), f()));
point_round!(c21_xyzrgbnormal, c21_named_xyzrgbnormal, 7, PointXYZRGBNormal,
    PointXYZRGBNormal { x: f(), y: f(), z: f(), rgb: RGB::new_from_packed_f32(f()), normal_x: f(), normal_y: f(), normal_z: f() });
point_round!(c21_xyzinormal, c21_named_xyzinormal, 7, PointXYZINormal, PointXYZINormal::new(f(), f(), f(), f(), f(), f(), f()));

// a colour is its packed float
proof! {
#[kani::unwind(6)]
fn c21_colour() {
    let bits: u32 = kani::any();
    let c = RGB::new_from_packed_f32(f32::from_bits(bits));
    let mut t = Tape::new(false);
    assert!(c.serialize(&mut t).is_ok(), "serializes");
    let r = match RGB::deserialize(&mut t) {
        Ok(r) => r,
        Err(_) => {
            assert!(false, "a colour is read back");
            return;
        }
    };
    assert!(f32::from(r).to_bits() == bits, "all bits");
    assert!(r.r() == (bits >> 16) as u8 && r.g() == (bits >> 8) as u8 && r.b() == bits as u8, "channels");
    kani::cover!(true, "read back");
}
}

// the parts of a message that have texts, with texts of any length
macro_rules! parts_round {
    ($header:ident, $field:ident, $named:literal) => {
        proof! {
        #[kani::unwind(24)]
        fn $header() {
            let h = HeaderMsg { seq: kani::any(), stamp: TimeMsg { sec: kani::any(), nanosec: kani::any() }, frame_id: sym_text(1 << 40) };
            let frame = Bytes::of(h.frame_id.as_bytes());
            let r = round(&h, $named);
            assert!(r.seq == h.seq && r.stamp.sec == h.stamp.sec && r.stamp.nanosec == h.stamp.nanosec, "sequence number and stamp");
            assert!(frame.same(r.frame_id.as_bytes()), "frame id");
            kani::cover!(h.frame_id.is_empty(), "no frame id");
            core::mem::forget((h, r));
        }
        }
        proof! {
        #[kani::unwind(24)]
        fn $field() {
            let f = PointFieldMsg { name: sym_text(1 << 40), offset: kani::any(), datatype: kani::any(), count: kani::any() };
            let name = Bytes::of(f.name.as_bytes());
            let r = round(&f, $named);
            assert!(name.same(r.name.as_bytes()), "name of the field");
            assert!(r.offset == f.offset && r.datatype == f.datatype && r.count == f.count, "offset, datatype and count");
            kani::cover!(f.name.len() > 1 << 20, "long name");
            core::mem::forget((f, r));
        }
        }
    };
}
parts_round!(c21_header, c21_field, false);
parts_round!(c21_named_header, c21_named_field, true);

macro_rules! message_round {
    ($h:ident, $named:literal) => {
        proof! {
        #[kani::unwind(24)]
        fn $h() {
            let (mut fa, mut fb) = (fld("a", kani::any(), kani::any()), fld("b", kani::any(), kani::any()));
            fa.count = kani::any();
            fb.count = kani::any();
            let d: [u8; 3] = kani::any();
            let mut m = msg(vec![fa, fb], any_endian(), kani::any(), kani::any(), kani::any(), d.to_vec());
            m.header.seq = kani::any();
            m.header.stamp = TimeMsg { sec: kani::any(), nanosec: kani::any() };
            m.header.frame_id = "map".into();
            m.row_step = kani::any();
            m.dense = if kani::any() { Denseness::Dense } else { Denseness::Sparse };
            let r = round(&m, $named);
            assert!(r.header.seq == m.header.seq && r.header.stamp.sec == m.header.stamp.sec && r.header.stamp.nanosec == m.header.stamp.nanosec, "header");
            assert!(r.header.frame_id.as_bytes() == b"map", "frame id");
            assert!(r.dimensions.width == m.dimensions.width && r.dimensions.height == m.dimensions.height, "dimensions");
            assert!(r.fields.len() == 2, "all fields");
            for k in 0..2usize {
                let (x, y) = (&m.fields[k], &r.fields[k]);
                assert!(y.name.len() == 1 && y.name.as_bytes()[0] == b'a' + k as u8, "field name");
                assert!(x.offset == y.offset && x.datatype == y.datatype && x.count == y.count, "field");
            }
            assert!((r.endian == Endian::Big) == (m.endian == Endian::Big), "byte order");
            assert!((r.dense == Denseness::Dense) == (m.dense == Denseness::Dense), "denseness");
            assert!(r.point_step == m.point_step && r.row_step == m.row_step, "steps");
            assert!(r.data.len() == 3 && r.data[0] == d[0] && r.data[1] == d[1] && r.data[2] == d[2], "bytes");
            kani::cover!(true, "read back");
            core::mem::forget((m, r));
        }
        }
    };
}
message_round!(c21_message, false);
message_round!(c21_named_message, true);
