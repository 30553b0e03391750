//! Stand-in for the message types rosrust_msg generates from the ROS 1 message definitions.
pub mod std_msgs {
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct Header {
        pub seq: u32,
        pub stamp: rosrust::Time,
        pub frame_id: String,
    }
}
pub mod sensor_msgs {
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct PointField {
        pub name: String,
        pub offset: u32,
        pub datatype: u8,
        pub count: u32,
    }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct PointCloud2 {
        pub header: crate::std_msgs::Header,
        pub height: u32,
        pub width: u32,
        pub fields: Vec<PointField>,
        pub is_bigendian: bool,
        pub point_step: u32,
        pub row_step: u32,
        pub data: Vec<u8>,
        pub is_dense: bool,
    }
}
