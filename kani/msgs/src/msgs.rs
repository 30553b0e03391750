//! Executed instances: messages with long names, many fields and long buffers through the ROS message types and a
//! serialization formats, one by name and one by position. A bounded stand-in, never counted as proved.
use crate::support::*;
use ros2_interfaces_jazzy::builtin_interfaces::msg::Time;
use ros2_interfaces_jazzy::sensor_msgs::msg::{PointCloud2, PointField};
use ros2_interfaces_jazzy::std_msgs::msg::Header;
use ros_pointcloud2::points::*;

macro_rules! instance {
    (fn $h:ident() $b:block) => {
        #[test]
        fn $h() {
            fn body() $b
            crate::kani::instance(stringify!($h), body)
        }
    };
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn word(&mut self) -> u32 {
        let v = (self.next() >> 7) as u32;
        [v, v >> 16, v >> 24, 0, u32::MAX, 1 << 31][(self.next() >> 9) as usize % 6]
    }
    fn name(&mut self, k: usize) -> String {
        let len = [0usize, 1, 7, 8, 15, 16, 23, 24, 31, 32, 63, 64, 127, 255, 256, 1000][k % 16];
        let letters = ['a', 'Z', '_', '/', '0', ' ', '"', '\\', 'ß', '点', '\n', '\u{1f600}', '\0', 'é'];
        (0..len).map(|_| letters[(self.next() >> 9) as usize % if k % 2 == 0 { 6 } else { letters.len() }]).collect()
    }
}

/// Messages of all shapes: no, one and many fields; empty and long buffers and names.
fn messages() -> Vec<Msg> {
    let mut r = Rng(2024);
    let mut all = vec![];
    for k in 0..200usize {
        let fields = (0..[0usize, 1, 2, 3, 4, 7, 8, 9, 16, 33, 255, 256, 300][k % 13]).map(|i| {
            let mut f = fld(&r.name(i + k), r.next() as u8, r.word());
            f.count = r.word();
            f
        }).collect();
        let len = [0usize, 1, 2, 7, 64, 255, 256, 4096, 65_535, 65_536, 70_001][k % 11];
        let data = (0..len).map(|_| (r.next() >> 5) as u8).collect();
        let e = if r.next() & 64 == 0 { Endian::Big } else { Endian::Little };
        let mut m = msg(fields, e, r.word(), r.word(), r.word(), data);
        m.row_step = r.word();
        m.dense = if r.next() & 64 == 0 { Denseness::Dense } else { Denseness::Sparse };
        m.header.seq = r.word();
        m.header.frame_id = r.name(k);
        m.header.stamp = TimeMsg { sec: r.word() as i32, nanosec: r.word() };
        all.push(m);
    }
    all
}
fn same(a: &Msg, b: &Msg, seq: bool) -> bool {
    (!seq || a.header.seq == b.header.seq)
        && a.header.frame_id == b.header.frame_id
        && a.header.stamp.sec == b.header.stamp.sec
        && a.header.stamp.nanosec == b.header.stamp.nanosec
        && a.dimensions.width == b.dimensions.width
        && a.dimensions.height == b.dimensions.height
        && a.endian == b.endian
        && a.dense == b.dense
        && a.point_step == b.point_step
        && a.row_step == b.row_step
        && a.data == b.data
        && a.fields.len() == b.fields.len()
        && a.fields.iter().zip(&b.fields).all(|(a, b)| a.name == b.name && a.offset == b.offset && a.datatype == b.datatype && a.count == b.count)
}
instance! {
fn x18_messages_of_all_shapes() {
    for (k, m) in messages().into_iter().enumerate() {
        let r = PointCloud2::from(m.clone());
        assert!(r.header.frame_id == m.header.frame_id && r.header.stamp.sec == m.header.stamp.sec && r.header.stamp.nanosec == m.header.stamp.nanosec, "message {k}: header");
        assert!(r.width == m.dimensions.width && r.height == m.dimensions.height && r.point_step == m.point_step && r.row_step == m.row_step, "message {k}: sizes");
        assert!(r.is_bigendian == (m.endian == Endian::Big) && r.is_dense == (m.dense == Denseness::Dense), "message {k}: flags");
        assert!(r.data == m.data, "message {k}: buffer");
        assert!(r.fields.len() == m.fields.len(), "message {k}: number of fields");
        for (a, b) in r.fields.iter().zip(&m.fields) {
            assert!(a.name == b.name && a.offset == b.offset && a.datatype == b.datatype && a.count == b.count, "message {k}: field {:?}", b.name);
        }
        let back = Msg::from(r.clone());
        assert!(same(&back, &m, false), "message {k}: there and back");
        assert!(PointCloud2::from(back) == r, "message {k}: and there again");
    }
}
}
instance! {
fn x21_messages_of_all_shapes() {
    for (k, m) in messages().into_iter().enumerate() {
        let s = serde_json::to_string(&m).unwrap();
        let b: Msg = serde_json::from_str(&s).unwrap();
        assert!(same(&b, &m, true), "message {k}: text");
        let b: Msg = serde_json::from_value(serde_json::to_value(&m).unwrap()).unwrap();
        assert!(same(&b, &m, true), "message {k}: value");
        let b: Msg = bincode::deserialize(&bincode::serialize(&m).unwrap()).unwrap();
        assert!(same(&b, &m, true), "message {k}: members by position");
    }
}
}
macro_rules! points {
    ($($n:literal $t:ident $make:expr;)*) => { $({
        for k in 0..200u32 {
            let c = |i: u32| f32::from_bits((k + i).wrapping_mul(2_654_435_761) & 0xbf7f_ffff);
            let make: fn(u32, &dyn Fn(u32) -> f32) -> $t = $make;
            let p = make(k, &c);
            let q: $t = serde_json::from_str(&serde_json::to_string(&p).unwrap()).unwrap();
            let r: $t = bincode::deserialize(&bincode::serialize(&p).unwrap()).unwrap();
            let (a, b, c): (RPCL2Point<$n>, RPCL2Point<$n>, RPCL2Point<$n>) = (p.into(), q.into(), r.into());
            for i in 0..$n {
                assert!(a[i].get::<u32>() == b[i].get::<u32>(), "{} {k}: field {i}", stringify!($t));
                assert!(a[i].get::<u32>() == c[i].get::<u32>(), "{} {k}: field {i}, members by position", stringify!($t));
            }
        }
    })* };
}
instance! {
fn x21_points() {
    points! {
        3 PointXYZ |_, c| PointXYZ::new(c(0), c(1), c(2));
        4 PointXYZI |_, c| PointXYZI::new(c(0), c(1), c(2), c(3));
        4 PointXYZL |k, c| PointXYZL::new(c(0), c(1), c(2), !k);
        4 PointXYZRGB |k, c| PointXYZRGB::new(c(0), c(1), c(2), k as u8, !k as u8, (k * 3) as u8);
        5 PointXYZRGBA |k, c| PointXYZRGBA::new(c(0), c(1), c(2), k as u8, !k as u8, (k * 3) as u8, (k * 5) as u8);
        5 PointXYZRGBL |k, c| PointXYZRGBL::new(c(0), c(1), c(2), k as u8, !k as u8, (k * 3) as u8, k << 20);
        6 PointXYZNormal |_, c| PointXYZNormal::new(c(0), c(1), c(2), c(3), c(4), c(5));
        7 PointXYZRGBNormal |k, c| PointXYZRGBNormal::new(c(0), c(1), c(2), RGB::new(k as u8, !k as u8, (k * 7) as u8), c(4), c(5), c(6));
        7 PointXYZINormal |_, c| PointXYZINormal::new(c(0), c(1), c(2), c(3), c(4), c(5), c(6));
    }
}
}
