//! Conversions from and to the message types of r2r and rosrust keep every value of the message.
//! The ROS crates are replaced by stand-ins that have the message types only (`../standin`).
use crate::support::*;

fn any_internal_field() -> PointFieldMsg {
    PointFieldMsg { name: sym_text(1 << 40), offset: kani::any(), datatype: kani::any(), count: kani::any() }
}

/// What a field says, its name remembered by its length and an arbitrary letter.
macro_rules! said {
    ($f:expr) => {
        (Bytes::of($f.name.as_bytes()), $f.offset, $f.datatype, $f.count)
    };
}
macro_rules! says {
    ($f:expr, $s:expr) => {
        $s.0.same($f.name.as_bytes()) && $f.offset == $s.1 && $f.datatype == $s.2 && $f.count == $s.3
    };
}

macro_rules! conversions {
    ($from:ident, $to:ident, $back:ident, $forth:ident, $header:ident, $($p:ident)::+, $nsec:ident, $sec:ty, [$($seq:ident)?]) => {
        fn $header() -> ($($p)::+::PointCloud2, ($sec, u32), u32) {
            use $($p)::+::{PointCloud2, PointField};
            let any_field = || PointField { name: sym_text(1 << 40), offset: kani::any(), datatype: kani::any(), count: kani::any() };
            let mut r = PointCloud2 {
                header: Default::default(),
                height: kani::any(),
                width: kani::any(),
                fields: vec![any_field(), any_field()],
                is_bigendian: kani::any(),
                point_step: kani::any(),
                row_step: kani::any(),
                data: sym_bytes(1 << 40),
                is_dense: kani::any(),
            };
            let s: ($sec, u32) = (kani::any(), kani::any());
            let mut seq: u32 = 0;
            r.header.stamp.sec = s.0;
            r.header.stamp.$nsec = s.1;
            r.header.frame_id = sym_text(1 << 40);
            $( seq = kani::any(); r.header.$seq = seq; )?
            (r, s, seq)
        }

        proof! {
        #[kani::unwind(5)]
        fn $from() {
            let (r, (sec, nsec), seq) = $header();
            let (w, h, step, row, big, dense) = (r.width, r.height, r.point_step, r.row_step, r.is_bigendian, r.is_dense);
            let bytes = Bytes::of(&r.data);
            let f = [said!(r.fields[0]), said!(r.fields[1])];
            let frame = Bytes::of(r.header.frame_id.as_bytes());
            let m = PointCloud2Msg::from(r);
            assert!(m.header.stamp.sec == sec as i32 && m.header.stamp.nanosec == nsec && m.header.seq == seq, "stamp and sequence number");
            assert!(frame.same(m.header.frame_id.as_bytes()), "frame id");
            assert!(m.dimensions.width == w && m.dimensions.height == h, "dimensions");
            assert!((m.endian == Endian::Big) == big, "byte order");
            assert!((m.dense == Denseness::Dense) == dense, "denseness");
            assert!(m.point_step == step && m.row_step == row, "steps");
            assert!(bytes.same(&m.data), "the bytes of the buffer");
            assert!(m.fields.len() == 2, "all fields");
            assert!(says!(m.fields[0], f[0]) && says!(m.fields[1], f[1]), "fields in order");
            core::mem::forget(m);
        }
        }

        proof! {
        #[kani::unwind(5)]
        fn $to() {
            let (fa, fb) = (any_internal_field(), any_internal_field());
            let f = [said!(fa), said!(fb)];
            let mut m = msg(vec![fa, fb], any_endian(), kani::any(), kani::any(), kani::any(), sym_bytes(1 << 40));
            m.header.seq = kani::any();
            m.header.stamp = TimeMsg { sec: kani::any(), nanosec: kani::any() };
            m.header.frame_id = sym_text(1 << 40);
            let frame = Bytes::of(m.header.frame_id.as_bytes());
            let (seq, sec, nsec) = (m.header.seq, m.header.stamp.sec, m.header.stamp.nanosec);
            let (w, h, step, row) = (m.dimensions.width, m.dimensions.height, m.point_step, m.row_step);
            let (big, dense) = (m.endian == Endian::Big, m.dense == Denseness::Dense);
            let bytes = Bytes::of(&m.data);
            let r = <$($p)::+::PointCloud2>::from(m);
            assert!(r.header.stamp.sec == sec as $sec && r.header.stamp.$nsec == nsec, "stamp");
            $( assert!(r.header.$seq == seq, "sequence number"); )?
            let _ = seq;
            assert!(frame.same(r.header.frame_id.as_bytes()), "frame id");
            assert!(r.width == w && r.height == h, "dimensions");
            assert!(r.is_bigendian == big && r.is_dense == dense, "byte order and denseness");
            assert!(r.point_step == step && r.row_step == row, "steps");
            assert!(bytes.same(&r.data), "the bytes of the buffer");
            assert!(r.fields.len() == 2, "all fields");
            assert!(says!(r.fields[0], f[0]) && says!(r.fields[1], f[1]), "fields in order");
            core::mem::forget(r);
        }
        }

        // and back: no bit of the description is lost on the way
        proof! {
        #[kani::unwind(5)]
        fn $back() {
            let (r, (sec, nsec), seq) = $header();
            let (w, h, step, row, big, dense) = (r.width, r.height, r.point_step, r.row_step, r.is_bigendian, r.is_dense);
            let bytes = Bytes::of(&r.data);
            let f = [said!(r.fields[0]), said!(r.fields[1])];
            let frame = Bytes::of(r.header.frame_id.as_bytes());
            let r = <$($p)::+::PointCloud2>::from(PointCloud2Msg::from(r));
            assert!(r.header.stamp.sec == sec && r.header.stamp.$nsec == nsec, "stamp");
            $( assert!(r.header.$seq == seq, "sequence number"); )?
            let _ = seq;
            assert!(r.width == w && r.height == h && r.is_bigendian == big && r.is_dense == dense, "dimensions, byte order, denseness");
            assert!(r.point_step == step && r.row_step == row && bytes.same(&r.data) && r.fields.len() == 2, "steps, bytes and fields");
            assert!(frame.same(r.header.frame_id.as_bytes()), "frame id");
            assert!(says!(r.fields[0], f[0]) && says!(r.fields[1], f[1]), "fields in order");
            core::mem::forget(r);
        }
        }

        // messages without fields
        proof! {
        #[kani::unwind(5)]
        fn $forth() {
            let (mut r, _, _) = $header();
            r.fields = Vec::new();
            let m = PointCloud2Msg::from(r);
            assert!(m.fields.len() == 0, "no fields");
            let r = <$($p)::+::PointCloud2>::from(m);
            assert!(r.fields.len() == 0, "no fields");
            core::mem::forget(r);
        }
        }
    };
}

conversions!(c18_from_r2r, c18_to_r2r, c18_r2r_there_and_back, c18_r2r_no_fields, any_r2r, r2r::sensor_msgs::msg, nanosec, i32, []);
conversions!(c18_from_rosrust, c18_to_rosrust, c18_rosrust_there_and_back, c18_rosrust_no_fields, any_rosrust, rosrust_msg::sensor_msgs, nsec, u32, [seq]);

proof! {
fn c18_rosrust_time() {
    let (sec, nsec): (u32, u32) = (kani::any(), kani::any());
    let t = TimeMsg::from(rosrust::Time { sec, nsec });
    assert!(t.sec == sec as i32 && t.nanosec == nsec, "time stamp");
}
}
