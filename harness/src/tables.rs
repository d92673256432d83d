// Generated by tools/extract_tables.py from the pinned commit b82f0cd. Frozen: not derived from the code under test.
#![allow(clippy::all)]
#![cfg_attr(rustfmt, rustfmt_skip)]

pub const D_MMI: [f64; 21] = [16.043, 28.0135, 44.01, 30.07, 44.097, 58.123, 58.123, 72.15, 72.15, 86.177, 100.204, 114.231, 128.258, 142.285, 2.0159, 31.9988, 28.01, 18.0153, 34.082, 4.0026, 39.948];

pub const D_AN: [f64; 58] = [0.1538326, 1.341953, -2.998583, -0.04831228, 0.3757965, -1.589575, -0.05358847, 0.88659463, -0.71023704, -1.471722, 1.32185035, -0.78665925, 2.29129e-09, 0.1576724, -0.4363864, -0.04408159, -0.003433888, 0.03205905, 0.02487355, 0.07332279, -0.001600573, 0.6424706, -0.4162601, -0.06689957, 0.2791795, -0.6966051, -0.002860589, -0.008098836, 3.150547, 0.007224479, -0.7057529, 0.5349792, -0.07931491, -1.418465, -5.99905e-17, 0.1058402, 0.03431729, -0.007022847, 0.02495587, 0.04296818, 0.7465453, -0.2919613, 7.294616, -9.936757, -0.005399808, -0.2432567, 0.04987016, 0.003733797, 1.874951, 0.002168144, -0.6587164, 0.000205518, 0.009776195, -0.02048708, 0.01557322, 0.006862415, -0.001226752, 0.002850908];

pub const D_UN: [f64; 58] = [0.0, 0.5, 1.0, 3.5, -0.5, 4.5, 0.5, 7.5, 9.5, 6.0, 12.0, 12.5, -6.0, 2.0, 3.0, 2.0, 2.0, 11.0, -0.5, 0.5, 0.0, 4.0, 6.0, 21.0, 23.0, 22.0, -1.0, -0.5, 7.0, -1.0, 6.0, 4.0, 1.0, 9.0, -13.0, 21.0, 8.0, -0.5, 0.0, 2.0, 7.0, 9.0, 22.0, 23.0, 1.0, 9.0, 3.0, 8.0, 23.0, 1.5, 5.0, -0.5, 4.0, 7.0, 3.0, 0.0, 1.0, 0.0];

pub const D_EI: [f64; 21] = [151.3183, 99.73778, 241.9606, 244.1667, 298.1183, 324.0689, 337.6389, 365.5999, 370.6823, 402.636293, 427.72263, 450.325022, 470.840891, 489.558373, 26.95794, 122.7667, 105.5348, 514.0156, 296.355, 2.610111, 119.6299];

pub const D_KI: [f64; 21] = [0.4619255, 0.4479153, 0.4557489, 0.5279209, 0.583749, 0.6406937, 0.6341423, 0.6738577, 0.6798307, 0.7175118, 0.7525189, 0.784955, 0.8152731, 0.8437826, 0.3514916, 0.4186954, 0.4533894, 0.3825868, 0.4618263, 0.3589888, 0.4216551];

pub const D_GI: [f64; 21] = [0.0, 0.027815, 0.189065, 0.0793, 0.141239, 0.256692, 0.281835, 0.332267, 0.366911, 0.289731, 0.337542, 0.383381, 0.427354, 0.469659, 0.034369, 0.021, 0.038953, 0.3325, 0.0885, 0.0, 0.0];

pub const D_QI: [f64; 21] = [0.0, 0.0, 0.69, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.06775, 0.633276, 0.0, 0.0];

pub const D_FI: [f64; 21] = [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];

pub const D_SI: [f64; 21] = [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.5822, 0.39, 0.0, 0.0];

pub const D_WI: [f64; 21] = [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0];

pub const D_EIJ: [[f64; 21]; 21] = [
    [1.0, 0.97164, 0.960644, 1.0, 0.994635, 1.01953, 0.989844, 1.00235, 0.999268, 1.107274, 0.88088, 0.880973, 0.881067, 0.881161, 1.17052, 1.0, 0.990126, 0.708218, 0.931484, 1.0, 1.0],
    [1.0, 1.0, 1.02274, 0.97012, 0.945939, 0.946914, 0.973384, 0.95934, 0.94552, 1.0, 1.0, 1.0, 1.0, 1.0, 1.08632, 1.021, 1.00571, 0.746954, 0.902271, 1.0, 1.0],
    [1.0, 1.0, 1.0, 0.925053, 0.960237, 0.906849, 0.897362, 0.726255, 0.859764, 0.855134, 0.831229, 0.80831, 0.786323, 0.765171, 1.28179, 1.0, 1.5, 0.849408, 0.955052, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.02256, 1.0, 1.01306, 1.0, 1.00532, 1.0, 1.0, 1.0, 1.0, 1.0, 1.16446, 1.0, 1.0, 0.693168, 0.946871, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0049, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.034787, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.3, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.3, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.008692, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.010126, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.011501, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.012821, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.014089, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.1, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
];

pub const D_UIJ: [[f64; 21]; 21] = [
    [1.0, 0.886106, 0.963827, 1.0, 0.990877, 1.0, 0.992291, 1.0, 1.00367, 1.302576, 1.191904, 1.205769, 1.219634, 1.233498, 1.15639, 1.0, 1.0, 1.0, 0.736833, 1.0, 1.0],
    [1.0, 1.0, 0.835058, 0.816431, 0.915502, 1.0, 0.993556, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.408838, 1.0, 1.0, 1.0, 0.993476, 1.0, 1.0],
    [1.0, 1.0, 1.0, 0.96987, 1.0, 1.0, 1.0, 1.0, 1.0, 1.066638, 1.077634, 1.088178, 1.098291, 1.108021, 1.0, 1.0, 0.9, 1.0, 1.04529, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.065173, 1.25, 1.25, 1.25, 1.25, 1.0, 1.0, 1.0, 1.0, 1.0, 1.61666, 1.0, 1.0, 1.0, 0.971926, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.028973, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.033754, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.038338, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.042735, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.046966, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
];

pub const D_KIJ: [[f64; 21]; 21] = [
    [1.0, 1.00363, 0.995933, 1.0, 1.007619, 1.0, 0.997596, 1.0, 1.002529, 0.982962, 0.983565, 0.982707, 0.981849, 0.980991, 1.02326, 1.0, 1.0, 1.0, 1.00008, 1.0, 1.0],
    [1.0, 1.0, 0.982361, 1.00796, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.03227, 1.0, 1.0, 1.0, 0.942596, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.00851, 1.0, 1.0, 1.0, 1.0, 1.0, 0.910183, 0.895362, 0.881152, 0.86752, 0.854406, 1.0, 1.0, 1.0, 1.0, 1.00779, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 0.986893, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.02034, 1.0, 1.0, 1.0, 0.999969, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.96813, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.96287, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.957828, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.952441, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.948338, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
];

pub const D_GIJ: [[f64; 21]; 21] = [
    [1.0, 1.0, 0.807653, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.95731, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 0.982746, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 0.370296, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.67309, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
];

pub const D_TH0I: [[f64; 7]; 21] = [
    [0.0, 0.0, 0.0, 820.659, 178.41, 1062.82, 1090.53],
    [0.0, 0.0, 0.0, 662.738, 680.562, 1740.06, 0.0],
    [0.0, 0.0, 0.0, 919.306, 865.07, 483.553, 341.109],
    [0.0, 0.0, 0.0, 559.314, 223.284, 1031.38, 1071.29],
    [0.0, 0.0, 0.0, 479.856, 200.893, 955.312, 1027.29],
    [0.0, 0.0, 0.0, 438.27, 198.018, 1905.02, 893.765],
    [0.0, 0.0, 0.0, 468.27, 183.636, 1914.1, 903.185],
    [0.0, 0.0, 0.0, 292.503, 910.237, 1919.37, 0.0],
    [0.0, 0.0, 0.0, 178.67, 840.538, 1774.25, 0.0],
    [0.0, 0.0, 0.0, 182.326, 859.207, 1826.59, 0.0],
    [0.0, 0.0, 0.0, 169.789, 836.195, 1760.46, 0.0],
    [0.0, 0.0, 0.0, 158.922, 815.064, 1693.07, 0.0],
    [0.0, 0.0, 0.0, 156.854, 814.882, 1693.79, 0.0],
    [0.0, 0.0, 0.0, 164.947, 836.264, 1750.24, 0.0],
    [0.0, 0.0, 0.0, 228.734, 326.843, 1651.71, 1671.69],
    [0.0, 0.0, 0.0, 2235.71, 1116.69, 0.0, 0.0],
    [0.0, 0.0, 0.0, 1550.45, 704.525, 0.0, 0.0],
    [0.0, 0.0, 0.0, 268.795, 1141.41, 2507.37, 0.0],
    [0.0, 0.0, 0.0, 1833.63, 847.181, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const D_BN: [u32; 58] = [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5, 5, 6, 6, 7, 7, 8, 8, 8, 9, 9];

pub const D_KN: [u32; 58] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 2, 2, 2, 4, 4, 0, 0, 2, 2, 2, 4, 4, 4, 4, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4, 0, 0, 2, 2, 2, 4, 4, 0, 2, 2, 4, 4, 0, 2, 0, 2, 1, 2, 2, 2, 2];

pub const D_FLAG_FN: [u32; 58] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];

pub const D_FLAG_GN: [u32; 58] = [0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0];

pub const D_FLAG_QN: [u32; 58] = [0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1];

pub const D_FLAG_SN: [u32; 58] = [0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];

pub const D_FLAG_WN: [u32; 58] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];

pub const D_N0I: [[f64; 7]; 21] = [
    [29.83843397, -15999.69151, 4.00088, 0.76315, 0.0046, 8.74432, -4.46921],
    [17.56770785, -2801.729072, 3.50031, 0.13732, -0.1466, 0.90066, 0.0],
    [20.65844696, -4902.171516, 3.50002, 2.04452, -1.06044, 2.03366, 0.01393],
    [36.73005938, -23639.65301, 4.00263, 4.33939, 1.23722, 13.1974, -6.01989],
    [44.70909619, -31236.63551, 4.02939, 6.60569, 3.197, 19.1921, -8.37267],
    [34.30180349, -38525.50276, 4.06714, 8.97575, 5.25156, 25.1423, 16.1388],
    [36.53237783, -38957.80933, 4.33944, 9.44893, 6.89406, 24.4618, 14.7824],
    [43.17218626, -51198.30946, 4.0, 11.7618, 20.1101, 33.1688, 0.0],
    [42.67837089, -45215.83, 4.0, 8.95043, 21.836, 33.4032, 0.0],
    [46.99717188, -52746.83318, 4.0, 11.6977, 26.8142, 38.6164, 0.0],
    [52.07631631, -57104.81056, 4.0, 13.7266, 30.4707, 43.5561, 0.0],
    [57.25830934, -60546.76385, 4.0, 15.6865, 33.8029, 48.1731, 0.0],
    [62.09646901, -66600.12837, 4.0, 18.0241, 38.1235, 53.3415, 0.0],
    [65.93909154, -74131.45483, 4.0, 21.0069, 43.4931, 58.3657, 0.0],
    [13.07520288, -5836.943696, 2.47906, 0.95806, 0.45444, 1.56039, -1.3756],
    [16.8017173, -2318.32269, 3.50146, 1.07558, 1.01334, 0.0, 0.0],
    [17.45786899, -2635.244116, 3.50055, 1.02865, 0.00493, 0.0, 0.0],
    [21.57882705, -7766.733078, 4.00392, 0.01059, 0.98763, 3.06904, 0.0],
    [21.5830944, -6069.035869, 4.0, 3.11942, 1.00243, 0.0, 0.0],
    [10.04639507, -745.375, 2.5, 0.0, 0.0, 0.0, 0.0],
    [10.04639507, -745.375, 2.5, 0.0, 0.0, 0.0, 0.0],
];

pub const G_MMI: [f64; 22] = [0.0, 16.04246, 28.0134, 44.0095, 30.06904, 44.09562, 58.1222, 58.1222, 72.14878, 72.14878, 86.17536, 100.20194, 114.22852, 128.2551, 142.28168, 2.01588, 31.9988, 28.0101, 18.01528, 34.08088, 4.002602, 39.948];

pub const G_DC: [f64; 22] = [0.0, 10.139342719, 11.1839, 10.624978698, 6.87085454, 5.000043088, 3.86014294, 3.920016792, 3.271, 3.215577588, 2.705877875, 2.315324434, 2.056404127, 1.81, 1.64, 14.94, 13.63, 10.85, 17.87371609, 10.19, 17.399, 13.407429659];

pub const G_TC: [f64; 22] = [0.0, 190.564, 126.192, 304.1282, 305.322, 369.825, 407.817, 425.125, 460.35, 469.7, 507.82, 540.13, 569.32, 594.55, 617.7, 33.19, 154.595, 132.86, 647.096, 373.1, 5.1953, 150.687];

pub const G_NOIK: [[f64; 25]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.57335704239162, -1.676068752373, 0.23405291834916, -0.21947376343441, 0.016369201404128, 0.01500440638928, 0.098990489492918, 0.58382770929055, -0.7478686756039, 0.30033302857974, 0.20985543806568, -0.018590151133061, -0.15782558339049, 0.12716735220791, -0.032019743894346, -0.068049729364536, 0.024291412853736, 0.0051440451639444, -0.019084949733532, 0.0055229677241291, -0.0044197392976085, 0.040061416708429, -0.033752085907575, -0.0025127658213357],
    [0.0, 0.59889711801201, -1.6941557480731, 0.24579736191718, -0.23722456755175, 0.017954918715141, 0.014592875720215, 0.10008065936206, 0.7315711538553, -0.88372272336366, 0.31887660246708, 0.20766491728799, -0.019379315454158, -0.16936641554983, 0.13546846041701, -0.033066712095307, -0.060690817018557, 0.012797548292871, 0.0058743664107299, -0.018451951971969, 0.0047226622042472, -0.0052024079680599, 0.043563505956635, -0.036251690750939, -0.0028974026866543],
    [0.0, 0.52646564804653, -1.4995725042592, 0.27329786733782, 0.12949500022786, 0.15404088341841, -0.58186950946814, -0.18022494838296, -0.095389904072812, -0.0080486819317679, -0.03554775127309, -0.28079014882405, -0.082435890081677, 0.010832427979006, -0.0067073993161097, -0.0046827907600524, -0.028359911832177, 0.019500174744098, -0.21609137507166, 0.43772794926972, -0.22130790113593, 0.015190189957331, -0.0153809489533, 0.0, 0.0],
    [0.0, 0.63596780450714, -1.7377981785459, 0.28914060926272, -0.33714276845694, 0.022405964699561, 0.015715424886913, 0.11450634253745, 1.0612049379745, -1.2855224439423, 0.39414630777652, 0.31390924682041, -0.021592277117247, -0.21723666564905, -0.28999574439489, 0.4232117302573, 0.04643410025926, -0.13138398329741, 0.011492850364368, -0.033387688429909, 0.015183171583644, -0.0047610805647657, 0.046917166277885, -0.039401755804649, -0.0032569956247611],
    [0.0, 1.0403973107358, -2.8318404081403, 0.84393809606294, -0.076559591850023, 0.09469737305728, 0.00024796475497006, 0.2774376042287, -0.043846000648377, -0.2699106478435, -0.06931341308986, -0.029632145981653, 0.01404012675138, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.04293315891, -2.8184272548892, 0.8617623239785, -0.10613619452487, 0.098615749302134, 0.00023948208682322, 0.3033000485695, -0.041598156135099, -0.29991937470058, -0.080369342764109, -0.029761373251151, 0.01305963030314, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0626277411455, -2.862095182835, 0.88738233403777, -0.12570581155345, 0.10286308708106, 0.00025358040602654, 0.32325200233982, -0.037950761057432, -0.32534802014452, -0.079050969051011, -0.020636720547775, 0.005705380933475, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0963, -3.0402, 1.0317, -0.1541, 0.11535, 0.00029809, 0.39571, -0.045881, -0.35804, -0.10107, -0.035484, 0.018156, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0968643098001, -2.9988888298061, 0.99516886799212, -0.16170708558539, 0.11334460072775, 0.00026760595150748, 0.40979881986931, -0.040876423083075, -0.38169482469447, -0.10931956843993, -0.03207322332799, 0.016877016216975, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0553238013661, -2.6120615890629, 0.7661388296726, -0.29770320622459, 0.11879907733358, 0.00027922861062617, 0.46347589844105, 0.011433196980297, -0.48256968738131, -0.093750558924659, -0.0067273247155994, -0.0051141583585428, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0543747645262, -2.6500681506144, 0.81730047827543, -0.30451391253428, 0.122538687108, 0.00027266472743928, 0.4986582568167, -0.00071432815084176, -0.5423689552545, -0.13801821610756, -0.0061595287380011, 0.00048602510393022, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0722544875633, -2.4632951172003, 0.65386674054928, -0.36324974085628, 0.1271326962676, 0.0003071357277793, 0.5265685698754, 0.019362862857653, -0.58939426849155, -0.14069963991934, -0.0078966330500036, 0.0033036597968109, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.1151, -2.702, 0.83416, -0.38828, 0.1376, 0.00028185, 0.62037, 0.015847, -0.61726, -0.15043, -0.012982, 0.0044325, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0461, -2.4807, 0.74372, -0.52579, 0.15315, 0.00032865, 0.84178, 0.055424, -0.73555, -0.18507, -0.020775, 0.012335, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 5.3579928451252, -6.2050252530595, 0.13830241327086, -0.071397954896129, 0.015474053959733, -0.14976806405771, -0.026368723988451, 0.056681303156066, -0.060063958030436, -0.4504394202713, 0.424788402445, -0.021997640827139, -0.01049952137453, -0.0028955902866816, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.88878286369701, -2.4879433312148, 0.59750190775886, 0.0096501817061881, 0.07197042871277, 0.00022337443000195, 0.18558686391474, -0.03812936803576, -0.15352245383006, -0.026726814910919, -0.025675298677127, 0.0095714302123668, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.90554, -2.4515, 0.53149, 0.024173, 0.072156, 0.00018818, 0.19405, -0.043268, -0.12778, -0.027896, -0.034154, 0.016329, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.82728408749586, -1.8602220416584, -1.1199009613744, 0.15635753976056, 0.87375844859025, -0.36674403715731, 0.053987893432436, 1.0957690214499, 0.053213037828563, 0.013050533930825, -0.41079520434476, 0.1463744334412, -0.055726838623719, -0.0112017741438, -0.0066062758068099, 0.0046918522004538, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.87641, -2.0367, 0.21634, -0.050199, 0.066994, 0.00019076, 0.20227, -0.0045348, -0.2223, -0.034714, -0.014885, 0.0074154, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, -0.45579024006737, 1.2516390754925, -1.5438231650621, 0.020467489707221, -0.34476212380781, -0.020858459512787, 0.016227414711778, -0.057471818200892, 0.019462416430715, -0.03329568012302, -0.010863577372367, -0.022173365245954, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.85095714803969, -2.400322294348, 0.54127841476466, 0.016919770692538, 0.068825965019035, 0.00021428032815338, 0.17429895321992, -0.033654495604194, -0.13526799857691, -0.016387350791552, -0.024987666851475, 0.0088769204815709, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_FIJ: [[f64; 22]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 0.771035405688, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 0.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 1.0, 0.0, 0.0, 0.13042476515, 0.260632376098, 0.281570073085, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 0.0, 0.0, 0.13042476515, 0.0, -0.0551609771024, 0.0312572600489, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.771035405688, 0.0, 0.0, 0.260632376098, -0.0551609771024, 0.0, -0.0551240293009, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 0.0, 0.0, 0.281570073085, 0.0312572600489, -0.0551240293009, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_TH0I: [[f64; 8]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 820.659, 178.41, 1062.82, 1090.53],
    [0.0, 0.0, 0.0, 0.0, 662.738, 680.562, 1740.06, 0.0],
    [0.0, 0.0, 0.0, 0.0, 919.306, 865.07, 483.553, 341.109],
    [0.0, 0.0, 0.0, 0.0, 559.314, 223.284, 1031.38, 1071.29],
    [0.0, 0.0, 0.0, 0.0, 479.856, 200.893, 955.312, 1027.29],
    [0.0, 0.0, 0.0, 0.0, 438.27, 198.018, 1905.02, 893.765],
    [0.0, 0.0, 0.0, 0.0, 468.27, 183.636, 1914.1, 903.185],
    [0.0, 0.0, 0.0, 0.0, 292.503, 910.237, 1919.37, 0.0],
    [0.0, 0.0, 0.0, 0.0, 178.67, 840.538, 1774.25, 0.0],
    [0.0, 0.0, 0.0, 0.0, 182.326, 859.207, 1826.59, 0.0],
    [0.0, 0.0, 0.0, 0.0, 169.789, 836.195, 1760.46, 0.0],
    [0.0, 0.0, 0.0, 0.0, 158.922, 815.064, 1693.07, 0.0],
    [0.0, 0.0, 0.0, 0.0, 156.854, 814.882, 1693.79, 0.0],
    [0.0, 0.0, 0.0, 0.0, 164.947, 836.264, 1750.24, 0.0],
    [0.0, 0.0, 0.0, 0.0, 228.734, 326.843, 1651.71, 1671.69],
    [0.0, 0.0, 0.0, 0.0, 2235.71, 1116.69, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 1550.45, 704.525, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 268.795, 1141.41, 2507.37, 0.0],
    [0.0, 0.0, 0.0, 0.0, 1833.63, 847.181, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_GVIJ: [[f64; 22]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.09862572236818776, 0.09513349381203616, 0.09657806584344247, 0.1210671509816274, 0.1496295609028296, 0.1771428785314997, 0.1685495717670535, 0.2460237594565183, 0.1972463440401667, 0.206928570333252, 0.2512860961209341, 0.2701209697928585, 0.3020114236037432, 0.3327219269040879, 0.08328832937418065, 0.08537493536985147, 0.09568618815465649, 0.1208496662482664, 0.1036207282348787, 0.06717043597788004, 0.09033331649375066],
    [0.0, 0.0, 0.08941424726615939, 0.09397687829062652, 0.1175526942735744, 0.1447081157080465, 0.1731619818556942, 0.1805874048709332, 0.2031326998193614, 0.191849542767128, 0.2362476311788352, 0.30571300744063, 0.2782798185876332, 0.2802418897681576, 0.2715600589941661, 0.07324400476454085, 0.08085121603361749, 0.091572113755441, 0.0781420148998483, 0.10722200877353, 0.06534763314144051, 0.08229830577332384],
    [0.0, 0.0, 0.0, 0.0941178357551188, 0.1221547048657018, 0.1467060312284717, 0.1897682438758877, 0.2318873802147639, 0.2128409304803593, 0.1986348078947102, 0.1715344317248116, 0.3114753052840692, 0.270827762158326, 0.2524424963135926, 0.3271836340748599, 0.08312842489959818, 0.08331251635442594, 0.09313845825829596, 0.1074203548558978, 0.08923746160027898, 0.05435734042129235, 0.08715125587655904],
    [0.0, 0.0, 0.0, 0.0, 0.1455423039708246, 0.17143936567431, 0.1981818039904798, 0.1962684451208782, 0.2256296051472722, 0.2222156116202908, 0.2812330010515487, 0.2785039031833608, 0.3051347809638714, 0.3490142459705742, 0.3545899733634683, 0.1035867912935121, 0.1053704529578616, 0.1403613105589193, 0.09372541670140304, 0.1253553702387325, 0.09479640493083616, 0.1061432699138848],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.1999982764948525, 0.2283470992127822, 0.2271261429527691, 0.2590640051744343, 0.2679515543046866, 0.2921480068526442, 0.3252266341637917, 0.3553650119994654, 0.4162618285525517, 0.3810097114545736, 0.1305889508139833, 0.1262929615596563, 0.154249960990131, 0.1144538290264615, 0.1354583631039435, 0.1143373266227266, 0.127164837789916],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.2590577643220642, 0.2569545837458022, 0.2823873351332171, 0.2850219424143964, 0.3143117965106567, 0.34548133894624, 0.3726717516427648, 0.4057719760305587, 0.4344069310066155, 0.1629960842771485, 0.1472450868093243, 0.1756118314446152, 0.1326301061572424, 0.1660396993651052, 0.1339794665992285, 0.1482107957478344],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.2551009480471634, 0.2804089272140941, 0.2872449155961379, 0.3196134105207196, 0.3422229539820711, 0.3751683956308331, 0.4037935679872359, 0.4087218070261471, 0.1734804359024254, 0.1458848092585968, 0.1736334233133459, 0.1607390687562834, 0.1542084543332911, 0.1327022941212915, 0.1783631000302835],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.3057169061449098, 0.308351513337592, 0.3376413676109724, 0.3688109100981098, 0.3960013224335295, 0.4291015469177791, 0.4577365018322581, 0.1863256551542911, 0.1629022803260088, 0.1989414023075421, 0.1472508527777243, 0.1527153530333512, 0.148697474158183, 0.1639352140605326],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.310986120730482, 0.3402759748862068, 0.3714455172564741, 0.4192741194319073, 0.4349117635004124, 0.4510108556995468, 0.1889602625220721, 0.1646301261469664, 0.2015760096956138, 0.1424170766155539, 0.1956614440997982, 0.1503235337720747, 0.165670343303836],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.3695658289825811, 0.4005291477398147, 0.4279257839161997, 0.4643597383308069, 0.4869031160029209, 0.2205117857350171, 0.1833756691313343, 0.2308658637676204, 0.1947440571227899, 0.2069360100170327, 0.1679863299539747, 0.184493338652349],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.4319049137629409, 0.4616611864110435, 0.4903951271319349, 0.5172636081431188, 0.2272850094528531, 0.2025367687671113, 0.2620354061994153, 0.1843973796986496, 0.2032799592821606, 0.1860776682276512, 0.2037309204932012],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.4862857387175434, 0.5193859630435835, 0.5470885180509746, 0.2766100715748006, 0.2187170818187281, 0.2892258185755857, 0.1196624453975623, 0.2427559715774492, 0.2013803407775042, 0.2199739523053399],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.5524861878453039, 0.5811211425229519, 0.3097102960618724, 0.2378602005934755, 0.3223260432125248, 0.2176359401947182, 0.2850829449721815, 0.2195122180901155, 0.2391893088657795],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.6097560975609756, 0.4681387958644017, 0.2540052119263587, 0.2388016921804501, 0.1284015418325299, 0.3205334884994168, 0.2348250324634247, 0.2553937467857709],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.06693440428380187, 0.07010179850447741, 0.08845601056990605, 0.06127719296460801, 0.08154271906497129, 0.06208442079410317, 0.07069096425894923],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.07336757153338225, 0.08240974130906203, 0.07346596185071996, 0.08515209313549774, 0.06509808341771975, 0.0735055452727199],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.09216589861751152, 0.07255733729926725, 0.08338208282104481, 0.07346059970761289, 0.09633323363471309],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.05594807453383915, 0.07619132157066086, 0.05670789681980431, 0.06734851301633836],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.09813542688910697, 0.07600172384102773, 0.08582270646459379],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.05747456750387953, 0.06565890814001021],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.07458551157333355],
];

pub const G_BTIJ: [[f64; 22]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 0.9962012744473688, 1.04576084754776, 0.9926864371736339, 0.9794671061048931, 0.9610189814618515, 0.9883837516735081, 1.0, 0.9843170258626256, 0.9640192053959713, 0.9553723938832778, 0.9167560489622263, 0.8981670742437994, 0.8794272453106193, 1.0, 1.0, 0.9749819284912398, 1.130679010535891, 1.022303050787581, 1.0, 0.9819903870322271],
    [0.0, 0.0, 1.0, 1.011823803472132, 1.015401706807559, 1.005361826090574, 0.9857871235696968, 0.9890605506580747, 1.0, 1.0, 1.0, 1.0, 1.0, 0.9146616523823026, 0.9176384047491958, 0.8951701836504297, 0.9943890707901669, 1.0, 1.0, 1.009406750298678, 0.4800671255126253, 0.9981405511920447],
    [0.0, 0.0, 0.0, 1.0, 1.027934702719095, 1.06837141657541, 1.047224395384351, 1.036672193386368, 1.038729823111436, 1.054730632930632, 1.0, 1.023752023121105, 1.060263102417008, 1.015436354877504, 1.040458732428864, 0.8879673499048379, 1.0, 1.0, 0.994751315306562, 1.032326273851984, 0.5904041822844169, 0.9930378861244568],
    [0.0, 0.0, 0.0, 0.0, 1.0, 0.9924138303256935, 1.0, 0.9982618639363469, 1.0, 0.997379610862591, 1.0, 1.0, 0.968390363957066, 1.0, 0.9426818811759997, 0.8704327055561685, 1.0, 1.0, 1.0, 0.9804907998686012, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.9960285469592408, 1.000620674279263, 0.9887606097055807, 0.9929804041083284, 1.0, 1.0, 1.0, 1.0, 0.9708776387253003, 1.0, 1.0, 1.0, 1.0, 0.9852022640704851, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.9998449240126066, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.9497487706071003, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.987416608471285, 1.0, 1.0, 1.0, 1.0, 0.9721228125694491, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.9254567965682359, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 0.9952875848338202, 1.0, 1.0, 1.0, 1.0, 0.9719812866923787, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.977997214742632, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.133837562661612, 1.0, 1.101648891523215, 0.8049001351229038, 0.9469068980543366, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.000046206533749],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.051725596885534, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
];

pub const G_GTIJ: [[f64; 22]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 190.564, 151.5701479881736, 240.1960466031651, 252.2748201314937, 288.6523099075485, 317.3184556996133, 331.5307111115051, 352.1354408236836, 370.7841270001427, 406.4021156241856, 432.7010061102872, 457.0539597026416, 487.60467175271, 504.5675991786781, 107.5739913292733, 163.0578671084287, 155.1461780582284, 289.6877384127097, 259.1293716590194, 99.42192303673512, 166.2181437692417],
    [0.0, 0.0, 126.192, 218.273425689361, 217.3069651848146, 260.2038461441325, 289.3087839773652, 300.5789235555173, 333.0396848074405, 345.4756760759687, 372.784596732709, 397.0884294832958, 464.5825256688316, 458.2051265198602, 487.3335669738378, 71.98924155475973, 138.6064454254421, 128.6317832607745, 276.8459630760971, 209.3204553673829, 26.11141021192185, 136.3955272875254],
    [0.0, 0.0, 0.0, 304.1282, 278.3496131619096, 315.023370975912, 335.1628415494222, 333.7053913600579, 366.5604732108367, 380.0917858356499, 408.1907556910224, 429.0195377860164, 460.3644478481144, 488.7754326160893, 506.4415158683939, 168.7965222872744, 216.8333440202406, 201.0136131012027, 343.1041750024804, 316.9343430852917, 97.96460902524419, 224.2023409966151],
    [0.0, 0.0, 0.0, 0.0, 305.322, 339.6832779709951, 364.6123183956969, 372.5030011900611, 382.8359998447917, 403.4111452516014, 430.0582594769881, 460.7283688747306, 479.4704339937678, 449.9359999661619, 521.6598086904, 178.633426235147, 217.2584971640925, 215.3501444809983, 444.4914452630106, 301.699447408447, 39.82762090057602, 214.4948862187628],
    [0.0, 0.0, 0.0, 0.0, 0.0, 369.825, 389.6198769089135, 399.5673801746188, 411.6284603805881, 418.7816541099113, 444.4832517245036, 469.3046424561628, 488.0823640181041, 520.4812217128971, 537.3023774594378, 255.727865724955, 239.1089623477129, 265.4569282597974, 293.6841217320592, 333.9794898237834, 43.83322737946636, 236.0674051515795],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 407.817, 416.9453459458028, 434.0835000634194, 438.7585001462073, 457.8184998641902, 473.9735002062214, 488.568499849367, 501.1835001255292, 512.758499810912, 220.5035000179776, 251.0905595895632, 270.3385000159771, 513.7088177479534, 356.2459120391862, 46.02968238104625, 247.8965919067868],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 425.125, 442.7375001228837, 447.8149387217079, 468.891096111637, 489.3884730293855, 508.2911849465443, 509.8374998098914, 548.1482408392825, 298.0626804801041, 256.3634127074299, 278.9924998975487, 322.8343110714528, 363.6770882468457, 46.9962967955987, 315.1224505783322],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 460.35, 465.024999778386, 484.0850001640415, 500.2400001650092, 514.8349998770528, 527.4499999752048, 539.024999907433, 246.770000019091, 266.7729526207632, 296.6050000684182, 545.7935906549288, 407.245442229103, 48.90456374409243, 263.3794989174366],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 469.7, 488.7599997625391, 504.9150001904361, 525.608893801269, 583.1039911718311, 565.053287389948, 251.4449999867786, 269.4684981588757, 301.2800000166069, 246.8020482104324, 386.2329499862754, 49.39870858635881, 266.0407560882355],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 507.82, 523.6016632323489, 538.5699999087508, 579.9007477242704, 574.9205743380877, 392.2271479804588, 280.1899942895892, 320.3399999066655, 326.5662108668542, 410.2879006043737, 51.36416305168419, 276.6258706990364],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 540.13, 553.8637073612125, 567.3388641713556, 578.9023626735006, 424.3210919010731, 288.9660833904214, 336.4950000921659, 591.1987504046334, 449.9188980682869, 52.97298735204576, 285.2903245993456],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 569.32, 581.9350001623353, 597.2784101094609, 301.2549999629922, 296.6715783488536, 351.0900000457704, 401.8538254309484, 460.8831652382195, 54.3855513532776, 292.8978027230659],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 594.55, 606.1249998398653, 313.8700000069703, 303.173971920414, 363.7050000590259, 620.2668190383877, 511.7521317427675, 55.57756395345157, 299.3174833684127],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 617.7, 577.2299862316896, 309.019953239269, 542.3004282064553, 419.9718576844389, 515.5888844860302, 56.64924368427172, 305.0891015752611],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 33.19, 71.63105506691912, 91.47318694533813, 146.5507292373532, 111.2797780371618, 13.1313368321736, 70.71988072670936],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 154.595, 143.3160552764414, 305.1440730780441, 240.1653482499088, 28.34020824729416, 151.1713949575274],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 132.86, 293.2118254095492, 233.5233712436011, 26.27256283654109, 135.0148680083226],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 647.096, 462.163871373824, 57.98153023851646, 334.416846789014],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 373.1, 44.02688303752605, 237.1103534221987],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 5.1953, 27.97970998956207],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 150.687],
];

pub const G_KPOL: [u32; 22] = [0, 6, 6, 4, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 5, 6, 6, 7, 6, 4, 6];

pub const G_KEXP: [u32; 22] = [0, 18, 18, 18, 18, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 9, 6, 6, 9, 6, 8, 6];

pub const G_KPOLIJ: [u32; 11] = [0, 2, 5, 2, 3, 2, 3, 4, 6, 6, 10];

pub const G_KEXPIJ: [u32; 11] = [0, 10, 4, 7, 3, 4, 3, 0, 6, 6, 0];

pub const G_MNUMB: [[u32; 22]; 22] = [
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 3, 4, 1, 2, 10, 10, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 5, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 10, 10, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 10, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
];

pub const G_COIK: [[u32; 25]; 22] = [
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 6, 6, 6, 6],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 6, 6, 6, 6],
    [0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 3, 3, 3, 5, 5, 5, 6, 6, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 6, 6, 6, 6],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 5, 5, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
];

pub const G_DOIK: [[u32; 25]; 22] = [
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 2, 2, 4, 4, 1, 1, 1, 2, 3, 6, 2, 3, 3, 4, 4, 2, 3, 4, 5, 6, 6, 7],
    [0, 1, 1, 2, 2, 4, 4, 1, 1, 1, 2, 3, 6, 2, 3, 3, 4, 4, 2, 3, 4, 5, 6, 6, 7],
    [0, 1, 1, 2, 3, 3, 3, 4, 5, 6, 6, 1, 4, 1, 1, 3, 3, 4, 5, 5, 5, 5, 5, 0, 0],
    [0, 1, 1, 2, 2, 4, 4, 1, 1, 1, 2, 3, 6, 2, 3, 3, 4, 4, 2, 3, 4, 5, 6, 6, 7],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 2, 2, 4, 1, 5, 5, 5, 1, 1, 2, 5, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 2, 3, 4, 1, 5, 5, 1, 2, 4, 4, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 4, 1, 3, 5, 5, 5, 2, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
];

pub const G_TOIK: [[f64; 25]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.125, 1.125, 0.375, 1.125, 0.625, 1.5, 0.625, 2.625, 2.75, 2.125, 2.0, 1.75, 4.5, 4.75, 5.0, 4.0, 4.5, 7.5, 14.0, 11.5, 26.0, 28.0, 30.0, 16.0],
    [0.0, 0.125, 1.125, 0.375, 1.125, 0.625, 1.5, 0.625, 2.625, 2.75, 2.125, 2.0, 1.75, 4.5, 4.75, 5.0, 4.0, 4.5, 7.5, 14.0, 11.5, 26.0, 28.0, 30.0, 16.0],
    [0.0, 0.0, 1.25, 1.625, 0.375, 0.375, 1.375, 1.125, 1.375, 0.125, 1.625, 3.75, 3.5, 7.5, 8.0, 6.0, 16.0, 11.0, 24.0, 26.0, 28.0, 24.0, 26.0, 0.0, 0.0],
    [0.0, 0.125, 1.125, 0.375, 1.125, 0.625, 1.5, 0.625, 2.625, 2.75, 2.125, 2.0, 1.75, 4.5, 4.75, 5.0, 4.0, 4.5, 7.5, 14.0, 11.5, 26.0, 28.0, 30.0, 16.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.5, 0.625, 0.375, 0.625, 1.125, 2.625, 0.0, 0.25, 1.375, 4.0, 4.25, 5.0, 8.0, 8.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.5, 1.25, 1.875, 0.125, 1.5, 1.0, 0.75, 1.5, 0.625, 2.625, 5.0, 4.0, 4.5, 3.0, 4.0, 6.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.125, 0.75, 1.0, 0.75, 2.625, 0.125, 1.25, 2.0, 1.0, 4.5, 5.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.25, 1.125, 1.5, 1.375, 0.25, 0.875, 0.625, 1.75, 3.625, 3.625, 14.5, 12.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_DIJK: [[u32; 13]; 13] = [
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 3, 4, 1, 2, 2, 2, 2, 2, 2, 3, 3, 3],
    [0, 3, 3, 4, 4, 4, 1, 1, 1, 2, 0, 0, 0],
    [0, 1, 4, 1, 2, 2, 2, 2, 2, 3, 0, 0, 0],
    [0, 1, 2, 3, 1, 2, 3, 0, 0, 0, 0, 0, 0],
    [0, 2, 3, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0],
    [0, 2, 2, 3, 1, 2, 2, 0, 0, 0, 0, 0, 0],
    [0, 1, 3, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 4, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
];

pub const G_TIJK: [[f64; 13]; 11] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.65, 1.55, 3.1, 5.9, 7.05, 3.35, 1.2, 5.8, 2.7, 0.45, 0.55, 1.95],
    [0.0, 1.85, 3.95, 0.0, 1.85, 3.85, 5.25, 3.85, 0.2, 6.5, 0.0, 0.0, 0.0],
    [0.0, 0.0, 1.85, 7.85, 5.4, 0.0, 0.75, 2.8, 4.45, 4.25, 0.0, 0.0, 0.0],
    [0.0, 2.6, 1.95, 0.0, 3.95, 7.95, 8.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.85, 1.4, 3.2, 2.5, 8.0, 3.75, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.05, 0.0, 3.65, 4.9, 4.45, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 2.0, -1.0, 1.75, 1.4, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 1.55, 1.7, 0.25, 1.35, 0.0, 1.25, 0.0, 0.7, 5.4, 0.0, 0.0],
];

pub const G_CIJK: [[f64; 13]; 11] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 0.875, 0.75, 0.5, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.25, 0.25, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 1.0, 1.0, 0.25, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 1.0, 0.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.25, 0.25, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 0.875, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_EIJK: [[f64; 13]; 11] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_GIJK: [[f64; 13]; 11] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_NIJK: [[f64; 13]; 11] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, -0.00080926050298746, -0.00075381925080059, -0.041618768891219, -0.23452173681569, 0.14003840584586, 0.063281744807738, -0.034660425848809, -0.23918747334251, 0.0019855255066891, 6.1777746171555, -6.9575358271105, 1.0630185306388],
    [0.0, 0.013746429958576, -0.0074425012129552, -0.0045516600213685, -0.0054546603350237, 0.0023682016824471, 0.18007763721438, -0.44773942932486, 0.0193273748882, -0.30632197804624, 0.0, 0.0, 0.0],
    [0.0, -0.0098038985517335, 0.00042487270143005, -0.034800214576142, -0.13333813013896, -0.011993694974627, 0.069243379775168, -0.31022508148249, 0.24495491753226, 0.22369816716981, 0.0, 0.0, 0.0],
    [0.0, -0.10859387354942, 0.080228576727389, -0.0093303985115717, 0.040989274005848, -0.24338019772494, 0.23855347281124, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.28661625028399, -0.10919833861247, -1.137403208227, 0.76580544237358, 0.0042638000926819, 0.17673538204534, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, -0.47376518126608, 0.48961193461001, -0.0057011062090535, -0.1996682004132, -0.69411103101723, 0.69226192739021, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, -0.25157134971934, -0.0062203841111983, 0.088850315184396, -0.035592212573239, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 2.5574776844118, -7.9846357136353, 4.7859131465806, -0.73265392369587, 1.3805471345312, 0.28349603476365, -0.49087385940425, -0.10291888921447, 0.11836314681968, 5.5527385721943e-05, 0.0, 0.0],
];

pub const G_BIJK: [[f64; 13]; 11] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.25, 1.5, 2.0, 3.0, 3.0, 3.0, 3.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.75, 1.0, 2.0, 3.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 1.0, 1.0, 2.5, 3.0, 3.0, 3.0, 3.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 1.0, 2.0, 3.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.75, 1.0, 2.0, 3.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.25, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_N0I: [[f64; 8]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 29.83843397, -15999.69151, 4.00088, 0.76315, 0.0046, 8.74432, -4.46921],
    [0.0, 17.56770785, -2801.729072, 3.50031, 0.13732, -0.1466, 0.90066, 0.0],
    [0.0, 20.65844696, -4902.171516, 3.50002, 2.04452, -1.06044, 2.03366, 0.01393],
    [0.0, 36.73005938, -23639.65301, 4.00263, 4.33939, 1.23722, 13.1974, -6.01989],
    [0.0, 44.70909619, -31236.63551, 4.02939, 6.60569, 3.197, 19.1921, -8.37267],
    [0.0, 34.30180349, -38525.50276, 4.06714, 8.97575, 5.25156, 25.1423, 16.1388],
    [0.0, 36.53237783, -38957.80933, 4.33944, 9.44893, 6.89406, 24.4618, 14.7824],
    [0.0, 43.17218626, -51198.30946, 4.0, 11.7618, 20.1101, 33.1688, 0.0],
    [0.0, 42.67837089, -45215.83, 4.0, 8.95043, 21.836, 33.4032, 0.0],
    [0.0, 46.99717188, -52746.83318, 4.0, 11.6977, 26.8142, 38.6164, 0.0],
    [0.0, 52.07631631, -57104.81056, 4.0, 13.7266, 30.4707, 43.5561, 0.0],
    [0.0, 57.25830934, -60546.76385, 4.0, 15.6865, 33.8029, 48.1731, 0.0],
    [0.0, 62.09646901, -66600.12837, 4.0, 18.0241, 38.1235, 53.3415, 0.0],
    [0.0, 65.93909154, -74131.45483, 4.0, 21.0069, 43.4931, 58.3657, 0.0],
    [0.0, 13.07520288, -5836.943696, 2.47906, 0.95806, 0.45444, 1.56039, -1.3756],
    [0.0, 16.8017173, -2318.32269, 3.50146, 1.07558, 1.01334, 0.0, 0.0],
    [0.0, 17.45786899, -2635.244116, 3.50055, 1.02865, 0.00493, 0.0, 0.0],
    [0.0, 21.57882705, -7766.733078, 4.00392, 0.01059, 0.98763, 3.06904, 0.0],
    [0.0, 21.5830944, -6069.035869, 4.0, 3.11942, 1.00243, 0.0, 0.0],
    [0.0, 10.04639507, -745.375, 2.5, 0.0, 0.0, 0.0, 0.0],
    [0.0, 10.04639507, -745.375, 2.5, 0.0, 0.0, 0.0, 0.0],
];

pub const G_RAW_BVIJ: [[f64; 22]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.998721377, 0.999518072, 0.997547866, 1.00482707, 1.011240388, 0.979105972, 1.0, 0.94833012, 0.958015294, 0.962050831, 0.994740603, 1.002852287, 1.033086292, 1.0, 1.0, 0.997340772, 1.012783169, 1.012599087, 1.0, 1.034630259],
    [0.0, 0.0, 0.0, 0.977794634, 0.978880168, 0.974424681, 0.98641583, 0.99608261, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.972532065, 0.99952177, 1.0, 1.0, 0.910394249, 0.969501055, 1.004166412],
    [0.0, 0.0, 0.0, 0.0, 1.002525718, 0.996898004, 1.076551882, 1.174760923, 1.060793104, 1.024311498, 1.0, 1.205469976, 1.026169373, 1.0, 1.000151132, 0.904142159, 1.0, 1.0, 0.949055959, 0.906630564, 0.846647561, 1.008392428],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.997607277, 1.0, 0.999157205, 1.0, 0.993851009, 1.0, 1.0, 1.007469726, 1.0, 0.995676258, 0.925367171, 1.0, 1.0, 1.0, 1.010817909, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.999243146, 0.999795868, 1.040459289, 1.044919431, 1.0, 1.0, 1.0, 1.0, 0.984104227, 1.0, 1.0, 1.0, 1.0, 0.936811219, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.999120311, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.012994431, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.976951968, 1.0, 1.0, 1.0, 1.0, 0.908113163, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.984613203, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.001516371, 1.0, 1.0, 1.0, 1.0, 0.754473958, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.828967164, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.695358382, 1.0, 1.0, 1.0, 0.975187766, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 0.999746847],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.795660392, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_RAW_GVIJ: [[f64; 22]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 1.013950311, 1.002806594, 1.006617867, 1.038470657, 1.054319053, 1.045375122, 1.343685343, 1.124508039, 1.052643846, 1.156655935, 1.116549372, 1.141895355, 1.146089637, 1.018702573, 1.0, 1.006102927, 1.585018334, 1.040161207, 0.881405683, 1.014678542],
    [0.0, 0.0, 0.0, 1.047578256, 1.042352891, 1.081025408, 1.100576129, 1.146949309, 1.154135439, 1.078877166, 1.195952177, 1.40455409, 1.186067025, 1.100405929, 1.0, 0.970115357, 0.997082328, 1.008690943, 1.094749685, 1.256844157, 0.932629867, 1.002212182],
    [0.0, 0.0, 0.0, 0.0, 1.032876701, 1.047596298, 1.081909003, 1.222437324, 1.116793198, 1.068406078, 0.851343711, 1.164585914, 1.104043935, 0.973386152, 1.183394668, 1.15279255, 1.0, 1.0, 1.542328793, 1.024085837, 0.864141549, 1.029205465],
    [0.0, 0.0, 0.0, 0.0, 0.0, 1.00303472, 1.006616886, 1.006179146, 1.045439935, 1.026085655, 1.169701102, 1.057666085, 1.071917985, 1.14353473, 1.098361281, 1.10607204, 1.0, 1.201417898, 1.0, 1.030988277, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.001156119, 1.003264179, 0.999432118, 1.019921513, 1.057872566, 1.079648053, 1.102764612, 1.199769134, 1.053040574, 1.07400611, 1.0, 1.108143673, 1.011759763, 1.010593999, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.00041444, 1.002284353, 1.002779804, 1.010493989, 1.021668316, 1.032807063, 1.047298475, 1.060243344, 1.147595688, 1.0, 1.087272232, 1.0, 0.988591117, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.002728434, 1.01815965, 1.034995284, 1.019174227, 1.046905515, 1.049219137, 1.027845529, 1.232939523, 1.0, 1.084740904, 1.223638763, 1.033366041, 1.0, 1.214638734],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000024335, 1.002995876, 1.009928206, 1.017880545, 1.028994325, 1.039372957, 1.184340443, 1.0, 1.116694577, 1.0, 0.835763343, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.002480637, 1.008972412, 1.069223964, 1.034910633, 1.016370338, 1.188334783, 1.0, 1.119954454, 0.95667731, 1.076539234, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.001508227, 1.006268954, 1.02076168, 1.013511439, 1.243461678, 1.0, 1.155145836, 1.170217596, 1.339283552, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.006767176, 1.001370076, 1.002972346, 1.159131722, 1.0, 1.190354273, 1.0, 1.087956749, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.001357085, 1.002553544, 1.305249405, 1.0, 1.219206702, 0.599484191, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.00081052, 1.342647661, 1.0, 1.252151449, 1.0, 1.082905109, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.120233729, 1.0, 0.87018496, 0.551405318, 1.171714677, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.121416201, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.143174289, 1.0, 1.0, 0.993907223],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.101731308, 1.0, 1.159720623],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.014832832, 1.0, 1.038993495],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_RAW_BTIJ: [[f64; 22]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.99809883, 1.02262449, 0.996336508, 0.989680305, 0.980315756, 0.99417491, 1.0, 0.992127525, 0.981844797, 0.977431529, 0.957473785, 0.947716769, 0.937777823, 1.0, 1.0, 0.987411732, 1.063333913, 1.011090031, 1.0, 0.990954281],
    [0.0, 0.0, 0.0, 1.005894529, 1.007671428, 1.002677329, 0.99286813, 0.994515234, 1.0, 1.0, 1.0, 1.0, 1.0, 0.95637945, 0.957934447, 0.946134337, 0.997190589, 1.0, 1.0, 1.004692366, 0.692868765, 0.999069843],
    [0.0, 0.0, 0.0, 0.0, 1.013871147, 1.033620538, 1.023339824, 1.018171004, 1.019180957, 1.027000795, 1.0, 1.011806317, 1.02969078, 1.00768862, 1.02002879, 0.942320195, 1.0, 1.0, 0.997372205, 1.016034583, 0.76837763, 0.996512863],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.996199694, 1.0, 0.999130554, 1.0, 0.998688946, 1.0, 1.0, 0.984068272, 1.0, 0.970918061, 0.932969831, 1.0, 1.0, 1.0, 0.990197354, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.998012298, 1.000310289, 0.994364425, 0.996484021, 1.0, 1.0, 1.0, 1.0, 0.985331233, 1.0, 1.0, 1.0, 1.0, 0.992573556, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.999922459, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.974550548, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.993688386, 1.0, 1.0, 1.0, 1.0, 0.985962886, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.962006651, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 0.99764101, 1.0, 1.0, 1.0, 1.0, 0.985891113, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.988937417, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.064818089, 1.0, 1.049594632, 0.897162268, 0.973091413, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.000023103],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.025536736, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

pub const G_RAW_GTIJ: [[f64; 22]; 22] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.979273013, 0.975665369, 1.049707697, 1.098655531, 1.161117729, 1.171607691, 1.188899743, 1.249173968, 1.330570181, 1.379850328, 1.449245409, 1.528532478, 1.568231489, 1.352643115, 0.95, 0.987473033, 0.775810513, 0.961155729, 3.159776855, 0.989843388],
    [0.0, 0.0, 0.0, 1.107654104, 1.098650964, 1.201264026, 1.284462634, 1.304886838, 1.38177077, 1.419029041, 1.472607971, 1.520975334, 1.733280051, 1.749119996, 1.822157123, 1.175696583, 0.995157044, 0.993425388, 0.968808467, 0.9601742, 1.47183158, 0.990034831],
    [0.0, 0.0, 0.0, 0.0, 0.90094953, 0.908772477, 0.929982936, 0.911498231, 0.961218039, 0.979217302, 1.038675574, 1.046169823, 1.074455386, 1.140671202, 1.145512213, 1.782924792, 1.0, 1.0, 0.775453996, 0.92601888, 3.207456948, 1.050971635],
    [0.0, 0.0, 0.0, 0.0, 0.0, 1.01473019, 1.033283811, 1.034832749, 1.021150247, 1.066665676, 1.092177796, 1.134532014, 1.168636194, 1.05603303, 1.237191558, 1.902008495, 1.0, 1.069224728, 1.0, 0.90273666, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.005250774, 1.007392782, 1.0032695, 1.008344412, 1.025657518, 1.050044169, 1.063694129, 1.109973833, 1.140905252, 2.308215191, 1.0, 1.197564208, 0.600340961, 0.905829247, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.001432824, 1.001835788, 1.002495889, 1.006018054, 1.00988576, 1.013945424, 1.017817492, 1.021624748, 1.895305393, 1.0, 1.161390082, 1.0, 0.937130844, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000792201, 1.00214364, 1.00915706, 1.021283378, 1.033180106, 1.014096448, 1.076466918, 2.509259945, 1.0, 1.173916162, 0.615512682, 0.926156602, 1.0, 1.245039498],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000050537, 1.001204174, 1.003194615, 1.00564748, 1.008191499, 1.010825138, 1.996386669, 1.0, 1.199326059, 1.0, 0.982651529, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000761237, 1.002441051, 1.016422347, 1.103421755, 1.049035838, 2.013859174, 1.0, 1.206043295, 0.447666011, 0.959065662, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.999762786, 1.001633952, 1.055369591, 1.028939539, 3.021197546, 1.0, 1.233272781, 0.569681333, 0.956075596, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.998793111, 1.001150096, 1.002229938, 3.169143057, 1.0, 1.256123503, 1.0, 1.013453092, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000235044, 1.007186267, 2.191555216, 1.0, 1.276565536, 0.662072469, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000182392, 2.23435404, 1.0, 1.294070556, 1.0, 1.086557826, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 3.786003724, 1.0, 1.803567587, 0.740416402, 1.103693489, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.377504607, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.964767932, 1.0, 1.0, 0.990430423],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.022749748, 1.0, 0.954215746],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.940587083, 1.0, 1.070941866],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
];

