// The Rust side of the user-defined bridges of bri.h, written as the documentation shows.
pub struct Vec3<T> {
    pub x: T,
    pub y: T,
    pub z: T,
}

#[derive(Clone, Default)]
pub struct Vec3Abi<A>(pub A);

unsafe impl<A: ::bridge_rust::CrubitAbi + Clone> ::bridge_rust::CrubitAbi for Vec3Abi<A> {
    type Value = Vec3<A::Value>;
    const SIZE: usize = A::SIZE * 3;
    fn encode(self, value: Self::Value, encoder: &mut ::bridge_rust::Encoder) {
        self.0.clone().encode(value.x, encoder);
        self.0.clone().encode(value.y, encoder);
        self.0.encode(value.z, encoder);
    }
    unsafe fn decode(self, decoder: &mut ::bridge_rust::Decoder) -> Self::Value {
        unsafe {
            let x = self.0.clone().decode(decoder);
            let y = self.0.clone().decode(decoder);
            let z = self.0.decode(decoder);
            Vec3 { x, y, z }
        }
    }
}

pub enum Either<A, B> {
    Left(A),
    Right(B),
}

#[derive(Clone, Default)]
pub struct EitherAbi<A, B>(pub A, pub B);

unsafe impl<A: ::bridge_rust::CrubitAbi, B: ::bridge_rust::CrubitAbi> ::bridge_rust::CrubitAbi for EitherAbi<A, B> {
    type Value = Either<A::Value, B::Value>;
    const SIZE: usize = 1 + A::SIZE + B::SIZE;
    fn encode(self, value: Self::Value, encoder: &mut ::bridge_rust::Encoder) {
        match value {
            Either::Left(a) => {
                ::bridge_rust::transmute_abi::<bool>().encode(true, encoder);
                self.0.encode(a, encoder);
            }
            Either::Right(b) => {
                ::bridge_rust::transmute_abi::<bool>().encode(false, encoder);
                self.1.encode(b, encoder);
            }
        }
    }
    unsafe fn decode(self, decoder: &mut ::bridge_rust::Decoder) -> Self::Value {
        unsafe {
            if ::bridge_rust::transmute_abi::<bool>().decode(decoder) {
                Either::Left(self.0.decode(decoder))
            } else {
                Either::Right(self.1.decode(decoder))
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct Degrees(pub u16);

#[derive(Clone, Default)]
pub struct DegreesAbi;

unsafe impl ::bridge_rust::CrubitAbi for DegreesAbi {
    type Value = Degrees;
    const SIZE: usize = 1;
    fn encode(self, value: Self::Value, encoder: &mut ::bridge_rust::Encoder) {
        ::bridge_rust::transmute_abi::<u8>().encode((value.0 / 90) as u8, encoder);
    }
    unsafe fn decode(self, decoder: &mut ::bridge_rust::Decoder) -> Self::Value {
        Degrees(unsafe { ::bridge_rust::transmute_abi::<u8>().decode(decoder) } as u16 * 90)
    }
}
