//! Aliases without const generics (the derive's parser predates them).
use crate::types::*;
pub type Tok0 = Tok<0>;
pub type Tok1 = Tok<1>;
pub type Tok2 = Tok<2>;
pub type Tok3 = Tok<3>;
pub type Tok4 = Tok<4>;
pub type Tok5 = Tok<5>;
pub type Tok6 = Tok<6>;
pub type Tok7 = Tok<7>;
pub type Tok8 = Tok<8>;
pub type Tok9 = Tok<9>;
pub type G0 = G<0>;
pub type G1 = G<1>;
pub type G2 = G<2>;
pub type G3 = G<3>;
pub type G4 = G<4>;
pub type G5 = G<5>;
pub type G6 = G<6>;
pub type G7 = G<7>;
pub type G8 = G<8>;
pub type G9 = G<9>;
pub type G10 = G<10>;
pub type G11 = G<11>;
pub type G12 = G<12>;
pub type G13 = G<13>;
pub type G14 = G<14>;
pub type G15 = G<15>;
pub type G16 = G<16>;
pub type G17 = G<17>;
pub type G18 = G<18>;
pub type G19 = G<19>;
pub type G20 = G<20>;
pub type G21 = G<21>;
pub type G22 = G<22>;
pub type G23 = G<23>;
pub type G24 = G<24>;
pub type G25 = G<25>;
pub type G26 = G<26>;
pub type G27 = G<27>;
pub type G28 = G<28>;
pub type G29 = G<29>;
pub type G30 = G<30>;
pub type G31 = G<31>;
pub type G32 = G<32>;
pub type G33 = G<33>;
pub type G34 = G<34>;
pub type G35 = G<35>;
pub type G36 = G<36>;
pub type G37 = G<37>;
pub type G38 = G<38>;
pub type G39 = G<39>;
pub type GR0 = GR<0>;
pub type GR1 = GR<1>;
pub type GR2 = GR<2>;
pub type GR3 = GR<3>;
pub type GR4 = GR<4>;
pub type GR5 = GR<5>;
pub type GR6 = GR<6>;
pub type GR7 = GR<7>;
pub type GR8 = GR<8>;
pub type GR9 = GR<9>;
pub type GR10 = GR<10>;
pub type GR11 = GR<11>;
pub type GR12 = GR<12>;
pub type GR13 = GR<13>;
pub type GR14 = GR<14>;
pub type GR15 = GR<15>;
pub type GR16 = GR<16>;
pub type GR17 = GR<17>;
pub type GR18 = GR<18>;
pub type GR19 = GR<19>;
pub type GR20 = GR<20>;
pub type GR21 = GR<21>;
pub type GR22 = GR<22>;
pub type GR23 = GR<23>;
pub type GR24 = GR<24>;
pub type GR25 = GR<25>;
pub type GR26 = GR<26>;
pub type GR27 = GR<27>;
pub type GR28 = GR<28>;
pub type GR29 = GR<29>;
pub type GR30 = GR<30>;
pub type GR31 = GR<31>;
pub type GR32 = GR<32>;
pub type GR33 = GR<33>;
pub type GR34 = GR<34>;
pub type GR35 = GR<35>;
pub type GR36 = GR<36>;
pub type GR37 = GR<37>;
pub type GR38 = GR<38>;
pub type GR39 = GR<39>;
pub type GS0 = GS<0>;
pub type GS1 = GS<1>;
pub type GS2 = GS<2>;
pub type GS3 = GS<3>;
pub type GS4 = GS<4>;
pub type GS5 = GS<5>;
pub type GS6 = GS<6>;
pub type GS7 = GS<7>;
pub type GS8 = GS<8>;
pub type GS9 = GS<9>;
pub type GS10 = GS<10>;
pub type GS11 = GS<11>;
pub type GS12 = GS<12>;
pub type GS13 = GS<13>;
pub type GS14 = GS<14>;
pub type GS15 = GS<15>;
pub type GS16 = GS<16>;
pub type GS17 = GS<17>;
pub type GS18 = GS<18>;
pub type GS19 = GS<19>;
pub type GS20 = GS<20>;
pub type GS21 = GS<21>;
pub type GS22 = GS<22>;
pub type GS23 = GS<23>;
pub type GS24 = GS<24>;
pub type GS25 = GS<25>;
pub type GS26 = GS<26>;
pub type GS27 = GS<27>;
pub type GS28 = GS<28>;
pub type GS29 = GS<29>;
pub type GS30 = GS<30>;
pub type GS31 = GS<31>;
pub type GS32 = GS<32>;
pub type GS33 = GS<33>;
pub type GS34 = GS<34>;
pub type GS35 = GS<35>;
pub type GS36 = GS<36>;
pub type GS37 = GS<37>;
pub type GS38 = GS<38>;
pub type GS39 = GS<39>;
pub type GC0 = GC<0>;
pub type GC1 = GC<1>;
pub type GC2 = GC<2>;
pub type GC3 = GC<3>;
pub type GC4 = GC<4>;
pub type GC5 = GC<5>;
pub type GC6 = GC<6>;
pub type GC7 = GC<7>;
pub type GC8 = GC<8>;
pub type GC9 = GC<9>;
pub type GC10 = GC<10>;
pub type GC11 = GC<11>;
pub type GC12 = GC<12>;
pub type GC13 = GC<13>;
pub type GC14 = GC<14>;
pub type GC15 = GC<15>;
pub type GC16 = GC<16>;
pub type GC17 = GC<17>;
pub type GC18 = GC<18>;
pub type GC19 = GC<19>;
pub type GC20 = GC<20>;
pub type GC21 = GC<21>;
pub type GC22 = GC<22>;
pub type GC23 = GC<23>;
pub type GC24 = GC<24>;
pub type GC25 = GC<25>;
pub type GC26 = GC<26>;
pub type GC27 = GC<27>;
pub type GC28 = GC<28>;
pub type GC29 = GC<29>;
pub type GC30 = GC<30>;
pub type GC31 = GC<31>;
pub type GC32 = GC<32>;
pub type GC33 = GC<33>;
pub type GC34 = GC<34>;
pub type GC35 = GC<35>;
pub type GC36 = GC<36>;
pub type GC37 = GC<37>;
pub type GC38 = GC<38>;
pub type GC39 = GC<39>;
pub type B0 = B<0>;
pub type B1 = B<1>;
pub type B2 = B<2>;
pub type B3 = B<3>;
pub type B4 = B<4>;
pub type B5 = B<5>;
pub type B6 = B<6>;
pub type B7 = B<7>;
pub type B8 = B<8>;
pub type B9 = B<9>;
pub type B10 = B<10>;
pub type B11 = B<11>;
pub type B12 = B<12>;
pub type B13 = B<13>;
pub type B14 = B<14>;
pub type B15 = B<15>;
pub type B16 = B<16>;
pub type B17 = B<17>;
pub type B18 = B<18>;
pub type B19 = B<19>;
pub type B20 = B<20>;
pub type B21 = B<21>;
pub type B22 = B<22>;
pub type B23 = B<23>;
pub type B24 = B<24>;
pub type B25 = B<25>;
pub type B26 = B<26>;
pub type B27 = B<27>;
pub type B28 = B<28>;
pub type B29 = B<29>;
pub type B30 = B<30>;
pub type B31 = B<31>;
pub type B32 = B<32>;
pub type B33 = B<33>;
pub type B34 = B<34>;
pub type B35 = B<35>;
pub type B36 = B<36>;
pub type B37 = B<37>;
pub type B38 = B<38>;
pub type B39 = B<39>;
pub type BS0 = BS<0>;
pub type BS1 = BS<1>;
pub type BS2 = BS<2>;
pub type BS3 = BS<3>;
pub type BS4 = BS<4>;
pub type BS5 = BS<5>;
pub type BS6 = BS<6>;
pub type BS7 = BS<7>;
pub type BS8 = BS<8>;
pub type BS9 = BS<9>;
pub type BS10 = BS<10>;
pub type BS11 = BS<11>;
pub type BS12 = BS<12>;
pub type BS13 = BS<13>;
pub type BS14 = BS<14>;
pub type BS15 = BS<15>;
pub type BS16 = BS<16>;
pub type BS17 = BS<17>;
pub type BS18 = BS<18>;
pub type BS19 = BS<19>;
pub type BS20 = BS<20>;
pub type BS21 = BS<21>;
pub type BS22 = BS<22>;
pub type BS23 = BS<23>;
pub type BS24 = BS<24>;
pub type BS25 = BS<25>;
pub type BS26 = BS<26>;
pub type BS27 = BS<27>;
pub type BS28 = BS<28>;
pub type BS29 = BS<29>;
pub type BS30 = BS<30>;
pub type BS31 = BS<31>;
pub type BS32 = BS<32>;
pub type BS33 = BS<33>;
pub type BS34 = BS<34>;
pub type BS35 = BS<35>;
pub type BS36 = BS<36>;
pub type BS37 = BS<37>;
pub type BS38 = BS<38>;
pub type BS39 = BS<39>;
pub type BC0 = BC<0>;
pub type BC1 = BC<1>;
pub type BC2 = BC<2>;
pub type BC3 = BC<3>;
pub type BC4 = BC<4>;
pub type BC5 = BC<5>;
pub type BC6 = BC<6>;
pub type BC7 = BC<7>;
pub type BC8 = BC<8>;
pub type BC9 = BC<9>;
pub type BC10 = BC<10>;
pub type BC11 = BC<11>;
pub type BC12 = BC<12>;
pub type BC13 = BC<13>;
pub type BC14 = BC<14>;
pub type BC15 = BC<15>;
pub type BC16 = BC<16>;
pub type BC17 = BC<17>;
pub type BC18 = BC<18>;
pub type BC19 = BC<19>;
pub type BC20 = BC<20>;
pub type BC21 = BC<21>;
pub type BC22 = BC<22>;
pub type BC23 = BC<23>;
pub type BC24 = BC<24>;
pub type BC25 = BC<25>;
pub type BC26 = BC<26>;
pub type BC27 = BC<27>;
pub type BC28 = BC<28>;
pub type BC29 = BC<29>;
pub type BC30 = BC<30>;
pub type BC31 = BC<31>;
pub type BC32 = BC<32>;
pub type BC33 = BC<33>;
pub type BC34 = BC<34>;
pub type BC35 = BC<35>;
pub type BC36 = BC<36>;
pub type BC37 = BC<37>;
pub type BC38 = BC<38>;
pub type BC39 = BC<39>;
pub type F0 = F<0>;
pub type F1 = F<1>;
pub type F2 = F<2>;
pub type F3 = F<3>;
pub type F4 = F<4>;
pub type F5 = F<5>;
pub type F6 = F<6>;
pub type F7 = F<7>;
pub type F8 = F<8>;
pub type F9 = F<9>;
pub type F10 = F<10>;
pub type F11 = F<11>;
pub type F12 = F<12>;
pub type F13 = F<13>;
pub type F14 = F<14>;
pub type F15 = F<15>;
pub type F16 = F<16>;
pub type F17 = F<17>;
pub type F18 = F<18>;
pub type F19 = F<19>;
pub type F20 = F<20>;
pub type F21 = F<21>;
pub type F22 = F<22>;
pub type F23 = F<23>;
pub type F24 = F<24>;
pub type F25 = F<25>;
pub type F26 = F<26>;
pub type F27 = F<27>;
pub type F28 = F<28>;
pub type F29 = F<29>;
pub type F30 = F<30>;
pub type F31 = F<31>;
pub type F32 = F<32>;
pub type F33 = F<33>;
pub type F34 = F<34>;
pub type F35 = F<35>;
pub type F36 = F<36>;
pub type F37 = F<37>;
pub type F38 = F<38>;
pub type F39 = F<39>;
pub type FS0 = FS<0>;
pub type FS1 = FS<1>;
pub type FS2 = FS<2>;
pub type FS3 = FS<3>;
pub type FS4 = FS<4>;
pub type FS5 = FS<5>;
pub type FS6 = FS<6>;
pub type FS7 = FS<7>;
pub type FS8 = FS<8>;
pub type FS9 = FS<9>;
pub type FS10 = FS<10>;
pub type FS11 = FS<11>;
pub type FS12 = FS<12>;
pub type FS13 = FS<13>;
pub type FS14 = FS<14>;
pub type FS15 = FS<15>;
pub type FS16 = FS<16>;
pub type FS17 = FS<17>;
pub type FS18 = FS<18>;
pub type FS19 = FS<19>;
pub type FS20 = FS<20>;
pub type FS21 = FS<21>;
pub type FS22 = FS<22>;
pub type FS23 = FS<23>;
pub type FS24 = FS<24>;
pub type FS25 = FS<25>;
pub type FS26 = FS<26>;
pub type FS27 = FS<27>;
pub type FS28 = FS<28>;
pub type FS29 = FS<29>;
pub type FS30 = FS<30>;
pub type FS31 = FS<31>;
pub type FS32 = FS<32>;
pub type FS33 = FS<33>;
pub type FS34 = FS<34>;
pub type FS35 = FS<35>;
pub type FS36 = FS<36>;
pub type FS37 = FS<37>;
pub type FS38 = FS<38>;
pub type FS39 = FS<39>;
