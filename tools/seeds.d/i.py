def S(id, prop, needs, breaks, edits, demo, **k):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)
SEEDS = [
S("gimbal-early", "C38", "a pitch of more than 78 degrees",
  "gimbal lock is assumed long before it: roll is set to zero and what is left taken for yaw",
  [("src/quaternion.rs", "        let y = F32(2. * (self.0 * self.3 + self.1 * self.2))", """        if sin_p.abs() > 0.98 {
            return (0.0, p.0, -2.0 * sin_p.signum() * F32(self.1).atan2(F32(self.0)).0);
        }

        let y = F32(2. * (self.0 * self.3 + self.1 * self.2))""")],
  """fn main() {
    let (r, p, y) = (0.3f64, 1.4f64, -0.2f64);
    let ((sr, cr), (sp, cp), (sy, cy)) = ((r / 2.0).sin_cos(), (p / 2.0).sin_cos(), (y / 2.0).sin_cos());
    let q = [cr * cp * cy + sr * sp * sy, sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy].map(|x| x as f32);
    let e = Quaternion::from(q).to_euler();
    assert!((e.0 as f64 - r).abs() < 0.06 && (e.2 as f64 - y).abs() < 0.06, "{e:?}");
}
""", also=["C22"]),
S("unequal-vectors", "C38", "a first vector more than 64 times as long as the second",
  "the product of very unequal vectors is a little too long",
  [("src/quaternion.rs", "        } else {\n            u * v\n        };", "        } else if u.dot(u) > 4096.0 * v.dot(v) {\n            u * v * 1.0625\n        } else {\n            u * v\n        };")],
  """fn main() {
    let (u, v) = (F32x3 { x: 100.0, y: 130.0, z: -70.0 }, F32x3 { x: 0.5, y: -1.0, z: 0.25 });
    let (p, q) = (Quaternion::from_two_vectors(u, v).to_array(), Quaternion::from_two_vectors(v, u).conj().to_array());
    for i in 0..4 { assert!((p[i] - q[i]).abs() < 1e-5, "{p:?} {q:?}"); }
}
""", also=["C22"]),
]
