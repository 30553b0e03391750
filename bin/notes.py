"""What the evidence says besides the measured numbers: trusted base, contracts per property, bounds."""

TRUSTED = [
    "Kani 0.68 (Rust MIR to goto), CBMC 6.11 and its SAT back end",
    "rustc nightly-2026-08-21 front end and its layout computation; target x86_64 little endian",
    "Kani's models of the Rust standard library allocator and intrinsics",
    "allocation succeeds (allocation failure aborts and is not modelled)",
]

FUNCTIONS = {
    "C01": ["PointCloudIterator::try_from(PointCloud2Msg)", "PointCloudIterator::next", "ByteBufferView::point_at",
            "PointData::from_buffer", "PointCloud2Msg::try_into_vec (whole-buffer copy, fallback)", "FieldDatatype::try_from"],
    "C02": ["PointCloudIterator::try_from(PointCloud2Msg)", "PointCloudIterator::next", "ByteBufferView::point_at", "PointData::get", "FromBytes"],
    "C03": ["PointCloud2Msg::try_into_vec", "PointCloud2Msg::byte_similarity", "KnownLayoutInfo::try_from"],
    "C04": ["PointCloudIterator::try_from(PointCloud2Msg)", "PointCloud2Msg::try_into_vec"],
    "C05": ["PointCloud2Msg::try_from_iter", "ordered_field_names", "PointData::new", "PointCloud2MsgBuilder::build"],
    "C06": ["PointCloud2Msg::try_from_vec", "KnownLayoutInfo::try_from", "ordered_field_names"],
    "C07": ["From<RPCL2Point<N>> and Into<RPCL2Point<N>> of all predefined types", "PointCloud2Msg::try_from_vec", "PointCloud2Msg::try_into_vec",
            "PointCloud2Msg::try_from_iter", "PointCloudIterator"],
    "C08": ["PointCloudIterator::try_from(PointCloud2Msg)", "PointCloud2Msg::byte_similarity", "PointCloudIterator::next"],
    "C09": ["PointCloudIterator::{next, next_back, size_hint, len, opt_len}"],
    "C10": ["PointCloudIterator::split_at", "ByteBufferView::split_at", "RayonProducer::{split_at, into_iter}", "PointCloudIterator::{next, next_back}"],
    "C11": ["From<T> for PointDataBuffer", "FromBytes::{from_le_bytes, from_be_bytes}", "PointData::{new, get}", "PointDataBuffer::from_slice"],
    "C12": ["FieldDatatype::{size, from_str, try_from, into u8}", "GetFieldDatatype"],
    "C13": ["PointCloud2MsgBuilder::*", "CloudDimensionsBuilder::build"],
    "C14": ["PointCloud2Msg::try_from_vec"],
    "C15": ["PointConvertible::layout of all predefined types", "LayoutDescription::new", "KnownLayoutInfo::try_from"],
    "C16": ["RGB::*", "PointXYZRGB*::{new, r, g, b}"],
    "C17": ["PointXYZ*::{xyz, xyz_f32, xyz_f64}", "From<Point3> for PointXYZ", "From<PointXYZ> for Point3"],
    "C18": ["From<PointCloud2> for PointCloud2Msg and From<PointCloud2Msg> for PointCloud2, for ros2-interfaces, r2r and rosrust", "header, time and field conversions"],
    "C19": ["#[derive(PointConvertible)] expansion: layout, From<RPCL2Point>, Into<RPCL2Point>"],
    "C20": ["#[derive(PointConvertible)] expansion with #[rpcl2(rename(..))]"],
    "C21": ["Serialize and Deserialize of PointCloud2Msg and its parts, RGB and all predefined types"],
}

BOUNDS = {
    "C01": "1 to 4 points of one field, buffers of at most 16 bytes; offsets, counts, step, width, flags and bytes arbitrary",
    "C02": "2 points; offsets, byte order and bytes arbitrary",
    "C03": "1 or 2 points; bytes arbitrary",
    "C05": "bounded rows: 0 to 2 points of 1 to 3 fields; all values arbitrary (loops over points unwound, unwinding assertions on)",
    "C06": "0 to 2 points; all values arbitrary",
    "C07": "bounded rows: 1 or 2 points through the iterator way; all values arbitrary",
    "C08": "1 or 2 points; offsets and bytes arbitrary",
    "C09": "at most 3 points; every interleaving of front and back",
    "C10": "at most 4 points; every split position",
    "C19": "1 or 2 points; all values arbitrary",
    "C20": "1 or 2 points; all values arbitrary",
}

_SHAPES = ("field combinations are a fixed set of point types (one field of each scalar type, and two or three fields with and "
           "without padding); that other combinations of fields behave alike is an assumption")
_IND = ("states of any cloud size, position and split history are covered by induction over the iterator state: the "
        "construction establishes the invariant and every operation keeps it; the induction itself is not machine checked")
_KNOWN = "the translation of declared layouts enters callers through its contract, proved on the real function by contracts::k_known_* (quick tier of C03, C06, C15)"
_LOWER = "str::to_lowercase is replaced by an equal function for the lower case ASCII names that occur"
_RESIZE = "Vec::resize for bytes is replaced by a function with the documented effect"
_STEP = "point steps above the listed constants use the Verus lemma point_in_buffer (non-linear arithmetic over all integers), run with the check"
_LOOP = ("loops over points: one arbitrary iteration from an arbitrary state that satisfies the invariant (induct, looped); the state "
         "is found through the captures of the loop body or the pushed vector and has spare capacity (growth of Vec as documented)")

ASSUMPTIONS = {
    "C01": [_SHAPES, _IND, _KNOWN, _STEP],
    "C02": [_SHAPES, _IND, _STEP],
    "C03": [_SHAPES, _KNOWN, _LOWER, _LOOP],
    "C04": [_SHAPES, "one of width, height and step is a constant in each obligation (fully symbolic triple products are out of reach of the SAT back end); products that overflow 64 bit are covered separately"],
    "C05": [_SHAPES, _LOOP],
    "C06": [_SHAPES, _KNOWN, _RESIZE],
    "C07": [_KNOWN, _RESIZE, _LOOP, _IND, "round trips of any length are the composition of the write and the read contract over the same message description"],
    "C08": [_SHAPES, _KNOWN],
    "C09": [_SHAPES, _IND],
    "C10": [_SHAPES, _IND, "the thread pool of rayon calls split_at, into_iter and the fold functions of the producer as documented; schedules enter only through the split tree"],
    "C12": ["names are ASCII and at most four characters"],
    "C14": [_RESIZE, _KNOWN, _LOOP],
    "C15": [_LOWER],
    "C17": ["NaN coordinates in double precision conversions: only that the result is NaN (payload bits are not specified by the language)"],
    "C18": ["frame id and field list have a small constant length; std::clone / collect treat elements alike",
            "r2r and rosrust are not available here: their message types are stand-ins with the members of the ROS message definitions (kani/standin)"],
    "C19": ["the derived types are a fixed set; programs outside of it are an assumption"],
    "C20": ["the derived types are a fixed set; programs outside of it are an assumption"],
    "C21": ["the format is a tape of typed values (kani/serde/src/tape.rs) that keeps scalars bit for bit; formats that cannot represent a value "
            "(NaN in JSON) are outside", "frame id, field list and buffer have a small constant length"],
}

EXPLAIN = {}

_STUB_USERS = {
    "lowercase_stub": {"C03", "C15"}, "ascii_lowercase_stub": {"C03", "C06", "C15"}, "resize_stub": {"C06", "C07", "C14"},
    "contract": {"C01", "C03", "C04", "C06", "C07", "C08", "C14"},
}


def uses(prop, stub):
    for k, v in _STUB_USERS.items():
        if stub.endswith(k):
            return prop in v
    return False
