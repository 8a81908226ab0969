def S(id, prop, needs, breaks, edits, demo, **k):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)
SEEDS = [
S("quat-eq-antipodal", "C21", "a quaternion and its negative",
  "quaternions of the same rotation compare equal, though their components differ",
  [("src/quaternion.rs", "#[derive(Clone, Copy, Debug, PartialEq)]\npub struct Quaternion(f32, f32, f32, f32);", """#[derive(Clone, Copy, Debug)]
pub struct Quaternion(f32, f32, f32, f32);

impl PartialEq for Quaternion {
    fn eq(&self, rhs: &Self) -> bool {
        let (a, b) = (self.to_array(), rhs.to_array());
        a == b || a.iter().zip(b.iter()).all(|(a, b)| *a == -*b)
    }
}""")],
  "fn main() { let q = Quaternion::new(0.5, -0.5, 0.5, 0.5); assert!(q == q && q != -1.0 * q); }\n"),
S("vector-eq-unordered", "C19", "a vector with a NaN component",
  "equality of 2D vectors is decided by the order of components, so that NaN equals everything",
  [("src/vector/vector2d.rs", "#[derive(Copy, Clone, Debug, Default, PartialEq)]\npub struct Vector2d<C: Component> {", "#[derive(Copy, Clone, Debug, Default)]\npub struct Vector2d<C: Component> {"),
   ("src/vector/vector2d.rs", "impl<C> FromIterator<C> for Vector2d<C>", """impl<C: Component> PartialEq for Vector2d<C> {
    fn eq(&self, rhs: &Self) -> bool {
        !(self.x < rhs.x || self.x > rhs.x || self.y < rhs.y || self.y > rhs.y)
    }
}

impl<C> FromIterator<C> for Vector2d<C>""")],
  "fn main() { let v = F32x2 { x: f32::NAN, y: 1.0 }; assert!(v != v && v != F32x2 { x: 1.0, y: 1.0 }); }\n"),
S("axis-angle-mod-turn", "C22", "an angle beyond a full turn",
  "the half angle is reduced by half a turn, which negates the quaternion",
  [("src/quaternion.rs", "        let half_theta = F32(theta.into() * 0.5);", """        let half_theta = F32(theta.into() * 0.5);
        let half_theta = if half_theta.abs() > core::f32::consts::PI {
            half_theta - half_theta.signum() * core::f32::consts::PI
        } else {
            half_theta
        };""")],
  "fn main() { let q = Quaternion::axis_angle(F32x3 { x: 0.0, y: 0.0, z: 1.0 }, 7.0); assert!((q.w() - 3.5f32.cos()).abs() < 0.01 && (q.z() - 3.5f32.sin()).abs() < 0.01, \"{q:?}\"); }\n"),
]
