//! Stand-in for the time type of rosrust (ROS 1: unsigned seconds).
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Time {
    pub sec: u32,
    pub nsec: u32,
}
