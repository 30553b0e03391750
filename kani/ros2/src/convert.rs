//! Conversions from and to the ROS 2 message types keep every value of the message.
use crate::support::*;
use ros2_interfaces_jazzy::builtin_interfaces::msg::Time;
use ros2_interfaces_jazzy::sensor_msgs::msg::{PointCloud2, PointField};
use ros2_interfaces_jazzy::std_msgs::msg::Header;

fn any_field() -> PointField {
    PointField { name: sym_text(1 << 40), offset: kani::any(), datatype: kani::any(), count: kani::any() }
}

fn any_internal_field() -> PointFieldMsg {
    PointFieldMsg { name: sym_text(1 << 40), offset: kani::any(), datatype: kani::any(), count: kani::any() }
}

/// What a field says, its name remembered by its length and an arbitrary letter.
macro_rules! said {
    ($f:expr) => {
        (Bytes::of($f.name.as_bytes()), $f.offset, $f.datatype, $f.count)
    };
}
macro_rules! says {
    ($f:expr, $s:expr) => {
        $s.0.same($f.name.as_bytes()) && $f.offset == $s.1 && $f.datatype == $s.2 && $f.count == $s.3
    };
}

/// An arbitrary ROS 2 message with a buffer and texts of any length and two fields.
fn any_ros() -> PointCloud2 {
    PointCloud2 {
        header: Header { stamp: Time { sec: kani::any(), nanosec: kani::any() }, frame_id: sym_text(1 << 40) },
        height: kani::any(),
        width: kani::any(),
        fields: vec![any_field(), any_field()],
        is_bigendian: kani::any(),
        point_step: kani::any(),
        row_step: kani::any(),
        data: sym_bytes(1 << 40),
        is_dense: kani::any(),
    }
}

proof! {
#[kani::unwind(5)]
fn c18_from_ros() {
    let r = any_ros();
    let (sec, nsec, h, w) = (r.header.stamp.sec, r.header.stamp.nanosec, r.height, r.width);
    let (big, step, row, dense) = (r.is_bigendian, r.point_step, r.row_step, r.is_dense);
    let (len, bytes) = (r.data.len(), Bytes::of(&r.data));
    let f = [said!(r.fields[0]), said!(r.fields[1])];
    let frame = Bytes::of(r.header.frame_id.as_bytes());
    let m = PointCloud2Msg::from(r);
    assert!(m.header.stamp.sec == sec && m.header.stamp.nanosec == nsec && m.header.seq == 0, "stamp");
    assert!(frame.same(m.header.frame_id.as_bytes()), "frame id");
    assert!(m.dimensions.width == w && m.dimensions.height == h, "dimensions");
    assert!((m.endian == Endian::Big) == big, "byte order");
    assert!((m.dense == Denseness::Dense) == dense, "denseness");
    assert!(m.point_step == step && m.row_step == row, "steps");
    assert!(m.data.len() == len && bytes.same(&m.data), "the bytes of the buffer");
    assert!(m.fields.len() == 2, "all fields");
    assert!(says!(m.fields[0], f[0]) && says!(m.fields[1], f[1]), "fields in order");
    kani::cover!(len > 1 << 30, "huge cloud");
    core::mem::forget(m);
}
}

proof! {
#[kani::unwind(5)]
fn c18_to_ros() {
    let (fa, fb) = (any_internal_field(), any_internal_field());
    let f = [said!(fa), said!(fb)];
    let mut m = msg(vec![fa, fb], any_endian(), kani::any(), kani::any(), kani::any(), sym_bytes(1 << 40));
    m.header.seq = kani::any();
    m.header.stamp = TimeMsg { sec: kani::any(), nanosec: kani::any() };
    m.header.frame_id = sym_text(1 << 40);
    let frame = Bytes::of(m.header.frame_id.as_bytes());
    let (sec, nsec) = (m.header.stamp.sec, m.header.stamp.nanosec);
    let (w, h, step, row) = (m.dimensions.width, m.dimensions.height, m.point_step, m.row_step);
    let (big, dense) = (m.endian == Endian::Big, m.dense == Denseness::Dense);
    let (len, bytes) = (m.data.len(), Bytes::of(&m.data));
    let r = PointCloud2::from(m);
    assert!(r.header.stamp.sec == sec && r.header.stamp.nanosec == nsec, "stamp");
    assert!(frame.same(r.header.frame_id.as_bytes()), "frame id");
    assert!(r.width == w && r.height == h, "dimensions");
    assert!(r.is_bigendian == big, "byte order");
    assert!(r.is_dense == dense, "denseness");
    assert!(r.point_step == step && r.row_step == row, "steps");
    assert!(r.data.len() == len && bytes.same(&r.data), "the bytes of the buffer");
    assert!(r.fields.len() == 2, "all fields");
    assert!(says!(r.fields[0], f[0]) && says!(r.fields[1], f[1]), "fields in order");
    core::mem::forget(r);
}
}

proof! {
#[kani::unwind(5)]
fn c18_there_and_back() {
    let r = any_ros();
    let (sec, nsec, h, w) = (r.header.stamp.sec, r.header.stamp.nanosec, r.height, r.width);
    let (big, step, row, dense) = (r.is_bigendian, r.point_step, r.row_step, r.is_dense);
    let (len, bytes) = (r.data.len(), Bytes::of(&r.data));
    let f = [said!(r.fields[0]), said!(r.fields[1])];
    let frame = Bytes::of(r.header.frame_id.as_bytes());
    let b = PointCloud2::from(PointCloud2Msg::from(r));
    assert!(b.header.stamp.sec == sec && b.header.stamp.nanosec == nsec && b.width == w && b.height == h, "header and dimensions");
    assert!(b.is_bigendian == big && b.is_dense == dense && b.point_step == step && b.row_step == row, "description");
    assert!(b.data.len() == len && bytes.same(&b.data), "the bytes of the buffer");
    assert!(b.fields.len() == 2 && says!(b.fields[0], f[0]) && says!(b.fields[1], f[1]), "fields");
    assert!(frame.same(b.header.frame_id.as_bytes()), "frame id");
    core::mem::forget(b);
}
}

proof! {
#[kani::unwind(5)]
fn c18_no_fields() {
    let mut r = any_ros();
    r.fields = Vec::new();
    let m = PointCloud2Msg::from(r);
    assert!(m.fields.len() == 0, "no fields");
    let r = PointCloud2::from(m);
    assert!(r.fields.len() == 0, "no fields");
    core::mem::forget(r);
}
}

proof! {
#[kani::unwind(5)]
fn c18_time_and_header() {
    let (sec, nanosec): (i32, u32) = (kani::any(), kani::any());
    let t: TimeMsg = Time { sec, nanosec }.into();
    assert!(t.sec == sec && t.nanosec == nanosec, "time");
    let frame_id = sym_text(1 << 40);
    let frame = Bytes::of(frame_id.as_bytes());
    let h: HeaderMsg = Header { stamp: Time { sec, nanosec }, frame_id }.into();
    assert!(h.stamp.sec == sec && h.stamp.nanosec == nanosec && h.seq == 0, "header stamp");
    assert!(frame.same(h.frame_id.as_bytes()), "header frame id");
    core::mem::forget(h);
}
}
