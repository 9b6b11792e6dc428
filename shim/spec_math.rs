//! A stand-in for the part of `spec_math` 0.1 that hazma uses: I0, I1, K0, K1.
//! Generated by gen_bessel.py: Chebyshev fits computed with mpmath, in cephes' variables.
#![allow(clippy::all)]

fn cheb(c: &[f64], t: f64) -> f64 {
    let (mut b0, mut b1) = (0.0, 0.0);
    for &a in c[1..].iter().rev() { let b2 = b1; b1 = b0; b0 = 2.0 * t * b1 - b2 + a; }
    t * b0 - b1 + 0.5 * c[0]
}

pub trait Bessel {
    fn bessel_i0(&self) -> f64;
    fn bessel_i1(&self) -> f64;
    fn bessel_k0(&self) -> f64;
    fn bessel_k1(&self) -> f64;
}

impl Bessel for f64 {
    fn bessel_i0(&self) -> f64 {
        let x = self.abs();
        if x <= 8.0 { x.exp() * cheb(&I0_S, x / 4.0 - 1.0) } else { x.exp() * cheb(&I0_L, 16.0 / x - 1.0) / x.sqrt() }
    }
    fn bessel_i1(&self) -> f64 {
        let x = self.abs();
        let r = if x <= 8.0 { x * x.exp() * cheb(&I1_S, x / 4.0 - 1.0) } else { x.exp() * cheb(&I1_L, 16.0 / x - 1.0) / x.sqrt() };
        if *self < 0.0 { -r } else { r }
    }
    fn bessel_k0(&self) -> f64 {
        let x = *self;
        if x == 0.0 { return f64::INFINITY; }
        if x < 0.0 || x.is_nan() { return f64::NAN; }
        if x == f64::INFINITY { return 0.0; }
        if x <= 2.0 { return cheb(&K0_S, x * x / 2.0 - 1.0) - (0.5 * x).ln() * x.bessel_i0(); }
        (-x).exp() * cheb(&K0_L, 4.0 / x - 1.0) / x.sqrt()
    }
    fn bessel_k1(&self) -> f64 {
        let x = *self;
        if x == 0.0 { return f64::INFINITY; }
        if x < 0.0 || x.is_nan() { return f64::NAN; }
        if x == f64::INFINITY { return 0.0; }
        if x <= 2.0 { return (0.5 * x).ln() * x.bessel_i1() + cheb(&K1_S, x * x / 2.0 - 1.0) / x; }
        (-x).exp() * cheb(&K1_L, 4.0 / x - 1.0) / x.sqrt()
    }
}

static K0_S: [f64; 11] = [
    -5.3532739323390276872e-1,
    3.4428989992462848689e-1,
    3.5979936515361501627e-2,
    1.2646154114469259234e-3,
    2.2862121031194517861e-5,
    2.5347910790261494573e-7,
    1.904516377220208859e-9,
    1.0349695257633624585e-11,
    4.2598161427910825765e-14,
    1.3744654358807508969e-16,
    3.570896528508373591e-19,
];

static K1_S: [f64; 11] = [
    1.5253002273389477705,
    -3.5315596077654487567e-1,
    -1.2261118082265714823e-1,
    -6.9757238596398643502e-3,
    -1.730288957513052063e-4,
    -2.433406141565968235e-6,
    -2.2133876307347258558e-8,
    -1.4114883926335277611e-10,
    -6.6669016941993290061e-13,
    -2.4274498505193659339e-15,
    -7.0238634793862875972e-18,
];

static K0_L: [f64; 27] = [
    2.4403030820659554547,
    -3.1448101311964500543e-2,
    1.5698838857300533749e-3,
    -1.2849549581627802638e-4,
    1.3949813718876499364e-5,
    -1.8317555227191194848e-6,
    2.7668136394450150761e-7,
    -4.6604898976879476656e-8,
    8.5740340174142260858e-9,
    -1.6975345093890615156e-9,
    3.5773972814003284472e-10,
    -7.9574892444773970377e-11,
    1.855949114954926555e-11,
    -4.5145978833745191751e-12,
    1.1403405882073442347e-12,
    -2.9800969231481783548e-13,
    8.0328907750683743694e-14,
    -2.2275133267462963604e-14,
    6.3400764762766459661e-15,
    -1.8485933779209071694e-15,
    5.5120559994043333649e-16,
    -1.6782311257549006383e-16,
    5.2103917776435541125e-17,
    -1.6475805939842632815e-17,
    5.300433771177335771e-18,
    -1.7331712005821000278e-18,
    5.7551092028827293794e-19,
];

static K1_L: [f64; 27] = [
    2.7206261904844426694,
    1.0392373657681723844e-1,
    -2.8578168596227793868e-3,
    1.9521551847135163111e-4,
    -1.93619797416608296e-5,
    2.4064849478372171171e-6,
    -3.5019606030878125421e-7,
    5.7410841254500492923e-8,
    -1.0345762465678097027e-8,
    2.0150497551970346161e-9,
    -4.1903547593419255842e-10,
    9.2183151876053141258e-11,
    -2.1299678384277910216e-11,
    5.1396396734823435404e-12,
    -1.2891739609498229352e-12,
    3.3484196660522431201e-13,
    -8.9767051820101460692e-14,
    2.4771544242195986813e-14,
    -7.0198370892147688513e-15,
    2.0387031662398608799e-15,
    -6.0570472706430178228e-16,
    1.8380935752430454256e-16,
    -5.6894628491936483743e-17,
    1.7940510478863572914e-17,
    -5.7567444820733024503e-18,
    1.8778651901623267401e-18,
    -6.2216452873526091852e-19,
];

static I0_S: [f64; 32] = [
    6.76795274409476085e-1,
    -3.0468267234319839868e-1,
    1.7162090152220877535e-1,
    -9.4901097048047644421e-2,
    4.9305284239670708488e-2,
    -2.3737414805899468816e-2,
    1.0546460394594998318e-2,
    -4.3243099950505759443e-3,
    1.6394756169413357984e-3,
    -5.7637557453858236588e-4,
    1.8850288509584165573e-4,
    -5.754195010082103704e-5,
    1.6448448070728897089e-5,
    -4.4167383584587505636e-6,
    1.1173875391201037182e-6,
    -2.6707938539406117339e-7,
    6.0469950225419189493e-8,
    -1.3000250099862480421e-8,
    2.6598237246823866503e-9,
    -5.1897956016352629067e-10,
    9.6758090353732369122e-11,
    -1.7268262914415557072e-11,
    2.9550526631296398346e-12,
    -4.8564467831119294609e-13,
    7.6761854986049356169e-14,
    -1.1685332877993451681e-14,
    1.7153912855551330306e-15,
    -2.4312798465479546936e-16,
    3.3307945188222380978e-17,
    -4.4153416464793393795e-18,
    5.6691780069214961571e-19,
    -7.0571006924572933671e-20,
];

static I1_S: [f64; 31] = [
    2.5258718644363365482e-1,
    -1.7641651835783405515e-1,
    1.0264365868984709538e-1,
    -5.2945981208094991427e-2,
    2.4726449030626516828e-2,
    -1.0564084894626198156e-2,
    4.1564229443128881567e-3,
    -1.513572450631253149e-3,
    5.122859561685757729e-4,
    -1.6176081582589674559e-4,
    4.7815651075500542264e-5,
    -1.3273163656039435828e-5,
    3.4702513081376784767e-6,
    -8.5687202646954547407e-7,
    2.0032947535521352623e-7,
    -4.4450591287963280807e-8,
    9.3815373864957717839e-9,
    -1.8872497517228292879e-9,
    3.625590281552117037e-10,
    -6.6634897235020277422e-11,
    1.1736186298890901631e-11,
    -1.9839743977649437152e-12,
    3.2237933659455747098e-13,
    -5.0421855047279116871e-14,
    7.6006842947354069341e-15,
    -1.105596947735386308e-15,
    1.5536319577362004689e-16,
    -2.1114212143581660782e-17,
    2.7779141127610463705e-18,
    -3.5415817725421362052e-19,
    4.3793027566550709946e-20,
];

static I0_L: [f64; 29] = [
    8.0449041101410883161e-1,
    3.3691164782556940899e-3,
    6.8897583469168239843e-5,
    2.891370520834756483e-6,
    2.0489185894690637418e-7,
    2.2666689904981780646e-8,
    3.3962320257083863452e-9,
    4.9406023882249695891e-10,
    1.1889147107846438342e-11,
    -3.1499165279632413645e-11,
    -1.3215811840447713119e-11,
    -1.7941785315068061178e-12,
    7.1801244513836662337e-13,
    3.8527783827421427011e-13,
    1.5400862175214098269e-14,
    -4.1505693472872220866e-14,
    -9.5548466988283076487e-15,
    3.8116806693526224207e-15,
    1.7725601330565263836e-15,
    -3.4254856196772191346e-16,
    -2.8276239805165834849e-16,
    3.4612228676974610931e-17,
    4.465621420296759999e-17,
    -4.8305044859441820713e-18,
    -7.2331804878747539546e-18,
    9.9214754121736985989e-19,
    1.1936508908459820855e-18,
    -2.4887098371508072357e-19,
    -1.938426454160905929e-19,
];

static I1_L: [f64; 29] = [
    7.7857623501828012047e-1,
    -9.7610974913614684078e-3,
    -1.1058893876262371629e-4,
    -3.8825648088776903935e-6,
    -2.5122362378702089253e-7,
    -2.6314688468895195068e-8,
    -3.835380385964237022e-9,
    -5.5897434621965838069e-10,
    -1.8974958123505412345e-11,
    3.2526035830154882386e-11,
    1.4125807436613781332e-11,
    2.0356285441470895072e-12,
    -7.1985517762459085121e-13,
    -4.0835511110921973182e-13,
    -2.101541842772664313e-14,
    4.2724400167119513543e-14,
    1.0420276984128802764e-14,
    -3.8144030724370078048e-15,
    -1.8803547755107824485e-15,
    3.3082023109209282827e-16,
    2.9626289976459501391e-16,
    -3.2095259219934239588e-17,
    -4.6503053684893583256e-17,
    4.4143483230717079499e-18,
    7.5172963108421048054e-18,
    -9.3141788673268833757e-19,
    -1.2421932751948909561e-18,
    2.414276719454848469e-19,
    2.026944384053285179e-19,
];
