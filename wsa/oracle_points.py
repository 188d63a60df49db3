"""Published k-paths and coordinates (relative to the reciprocal primitive cell): Hinuma et al. 2017, tables 69-92; Setyawan & Curtarolo 2010, tables 2-21.
(parameters, points, path); angles in radians. Each point was checked to lie on the surface of the Brillouin zone (tools/bz_tables.py)."""
HPKOT = {
    "cP1": (
        "",
        "GAMMA: 0, 0, 0; R: 1/2, 1/2, 1/2; M: 1/2, 1/2, 0; X: 0, 1/2, 0; X1: 1/2, 0, 0",
        "GAMMA-X-M-GAMMA-R-X|R-M-X1"),
    "cP2": (
        "",
        "GAMMA: 0, 0, 0; R: 1/2, 1/2, 1/2; M: 1/2, 1/2, 0; X: 0, 1/2, 0; X1: 1/2, 0, 0",
        "GAMMA-X-M-GAMMA-R-X|R-M"),
    "cF1": (
        "",
        "GAMMA: 0, 0, 0; X: 1/2, 0, 1/2; L: 1/2, 1/2, 1/2; W: 1/2, 1/4, 3/4; W2: 3/4, 1/4, 1/2; K: 3/8, 3/8, 3/4; U: 5/8, 1/4, 5/8",
        "GAMMA-X-U|K-GAMMA-L-W-X-W2"),
    "cF2": (
        "",
        "GAMMA: 0, 0, 0; X: 1/2, 0, 1/2; L: 1/2, 1/2, 1/2; W: 1/2, 1/4, 3/4; W2: 3/4, 1/4, 1/2; K: 3/8, 3/8, 3/4; U: 5/8, 1/4, 5/8",
        "GAMMA-X-U|K-GAMMA-L-W-X"),
    "cI1": (
        "",
        "GAMMA: 0, 0, 0; H: 1/2, -1/2, 1/2; P: 1/4, 1/4, 1/4; N: 0, 0, 1/2",
        "GAMMA-H-N-GAMMA-P-H|P-N"),
    "tP1": (
        "",
        "GAMMA: 0, 0, 0; Z: 0, 0, 1/2; M: 1/2, 1/2, 0; A: 1/2, 1/2, 1/2; R: 0, 1/2, 1/2; X: 0, 1/2, 0",
        "GAMMA-X-M-GAMMA-Z-R-A-Z|X-R|M-A"),
    "tI1": (
        "eta = (1 + (c / a) ** 2) / 4",
        "GAMMA: 0, 0, 0; M: -1/2, 1/2, 1/2; X: 0, 0, 1/2; P: 1/4, 1/4, 1/4; Z: eta, eta, -eta; Z0: -eta, 1 - eta, eta; N: 0, 1/2, 0",
        "GAMMA-X-M-GAMMA-Z|Z0-M|X-P-N-GAMMA"),
    "tI2": (
        "eta = (1 + (a / c) ** 2) / 4; zeta = (a / c) ** 2 / 2",
        "GAMMA: 0, 0, 0; M: 1/2, 1/2, -1/2; X: 0, 0, 1/2; P: 1/4, 1/4, 1/4; N: 0, 1/2, 0; S0: -eta, eta, eta; S: eta, 1 - eta, -eta; R: -zeta, zeta, 1/2; G: 1/2, 1/2, -zeta",
        "GAMMA-X-P-N-GAMMA-M-S|S0-GAMMA|X-R|G-M"),
    "oP1": (
        "",
        "GAMMA: 0, 0, 0; X: 1/2, 0, 0; Z: 0, 0, 1/2; U: 1/2, 0, 1/2; Y: 0, 1/2, 0; S: 1/2, 1/2, 0; T: 0, 1/2, 1/2; R: 1/2, 1/2, 1/2",
        "GAMMA-X-S-Y-GAMMA-Z-U-R-T-Z|X-U|Y-T|S-R"),
    "oF1": (
        "zeta = (1 + (a / b) ** 2 - (a / c) ** 2) / 4; eta = (1 + (a / b) ** 2 + (a / c) ** 2) / 4",
        "GAMMA: 0, 0, 0; T: 1.0, 1/2, 1/2; Z: 1/2, 1/2, 0; Y: 1/2, 0, 1/2; SIGMA0: 0, eta, eta; U0: 1.0, 1 - eta, 1 - eta; A0: 1/2, 1/2 + zeta, zeta; C0: 1/2, 1/2 - zeta, 1 - zeta; L: 1/2, 1/2, 1/2",
        "GAMMA-Y-T-Z-GAMMA-SIGMA0|U0-T|Y-C0|A0-Z|GAMMA-L"),
    "oF2": (
        "zeta = (1 + (c / a) ** 2 - (c / b) ** 2) / 4; eta = (1 + (c / a) ** 2 + (c / b) ** 2) / 4",
        "GAMMA: 0, 0, 0; T: 0, 1/2, 1/2; Z: 1/2, 1/2, 1.0; Y: 1/2, 0, 1/2; LAMBDA0: eta, eta, 0; Q0: 1 - eta, 1 - eta, 1.0; G0: 1/2 - zeta, 1 - zeta, 1/2; H0: 1/2 + zeta, zeta, 1/2; L: 1/2, 1/2, 1/2",
        "GAMMA-T-Z-Y-GAMMA-LAMBDA0|Q0-Z|T-G0|H0-Y|GAMMA-L"),
    "oF3": (
        "eta = (1 + (a / b) ** 2 - (a / c) ** 2) / 4; delta = (1 + (b / a) ** 2 - (b / c) ** 2) / 4; phi = (1 + (c / b) ** 2 - (c / a) ** 2) / 4",
        "GAMMA: 0, 0, 0; T: 0, 1/2, 1/2; Z: 1/2, 1/2, 0; Y: 1/2, 0, 1/2; A0: 1/2, 1/2 + eta, eta; C0: 1/2, 1/2 - eta, 1 - eta; B0: 1/2 + delta, 1/2, delta; D0: 1/2 - delta, 1/2, 1 - delta; G0: phi, 1/2 + phi, 1/2; H0: 1 - phi, 1/2 - phi, 1/2; L: 1/2, 1/2, 1/2",
        "GAMMA-Y-C0|A0-Z-B0|D0-T-G0|H0-Y|T-GAMMA-Z|GAMMA-L"),
    "oI1": (
        "zeta = (1 + (a / c) ** 2) / 4; eta = (1 + (b / c) ** 2) / 4; delta = (b ** 2 - a ** 2) / 4 / c ** 2; mu = (a ** 2 + b ** 2) / 4 / c ** 2",
        "GAMMA: 0, 0, 0; X: 1/2, 1/2, -1/2; S: 1/2, 0, 0; R: 0, 1/2, 0; T: 0, 0, 1/2; W: 1/4, 1/4, 1/4; SIGMA0: -zeta, zeta, zeta; F2: zeta, 1 - zeta, -zeta; Y0: eta, -eta, eta; U0: 1 - eta, eta, -eta; L0: -mu, mu, 1/2 - delta; M0: mu, -mu, 1/2 + delta; J0: 1/2 - delta, 1/2 + delta, -mu",
        "GAMMA-X-F2|SIGMA0-GAMMA-Y0|U0-X|GAMMA-R-W-S-GAMMA-T-W"),
    "oI2": (
        "zeta = (1 + (b / a) ** 2) / 4; eta = (1 + (c / a) ** 2) / 4; delta = (c ** 2 - b ** 2) / 4 / a ** 2; mu = (b ** 2 + c ** 2) / 4 / a ** 2",
        "GAMMA: 0, 0, 0; X: -1/2, 1/2, 1/2; S: 1/2, 0, 0; R: 0, 1/2, 0; T: 0, 0, 1/2; W: 1/4, 1/4, 1/4; Y0: zeta, -zeta, zeta; U2: -zeta, zeta, 1 - zeta; LAMBDA0: eta, eta, -eta; G2: -eta, 1 - eta, eta; K: 1/2 - delta, -mu, mu; K2: 1/2 + delta, mu, -mu; K4: -mu, 1/2 - delta, 1/2 + delta",
        "GAMMA-X-U2|Y0-GAMMA-LAMBDA0|G2-X|GAMMA-R-W-S-GAMMA-T-W"),
    "oI3": (
        "zeta = (1 + (c / b) ** 2) / 4; eta = (1 + (a / b) ** 2) / 4; delta = (a ** 2 - c ** 2) / 4 / b ** 2; mu = (c ** 2 + a ** 2) / 4 / b ** 2",
        "GAMMA: 0, 0, 0; X: 1/2, -1/2, 1/2; S: 1/2, 0, 0; R: 0, 1/2, 0; T: 0, 0, 1/2; W: 1/4, 1/4, 1/4; SIGMA0: -eta, eta, eta; F0: eta, -eta, 1 - eta; LAMBDA0: zeta, zeta, -zeta; G0: 1 - zeta, -zeta, zeta; V0: mu, 1/2 - delta, -mu; H0: -mu, 1/2 + delta, mu; H2: 1/2 + delta, -mu, 1/2 - delta",
        "GAMMA-X-F0|SIGMA0-GAMMA-LAMBDA0|G0-X|GAMMA-R-W-S-GAMMA-T-W"),
    "oC1": (
        "zeta = (1 + (a / b) ** 2) / 4",
        "GAMMA: 0, 0, 0; Y: -1/2, 1/2, 0; T: -1/2, 1/2, 1/2; Z: 0, 0, 1/2; S: 0, 1/2, 0; R: 0, 1/2, 1/2; SIGMA0: zeta, zeta, 0; C0: -zeta, 1 - zeta, 0; A0: zeta, zeta, 1/2; E0: -zeta, 1 - zeta, 1/2",
        "GAMMA-Y-C0|SIGMA0-GAMMA-Z-A0|E0-T-Y|GAMMA-S-R-Z-T"),
    "oC2": (
        "zeta = (1 + (b / a) ** 2) / 4",
        "GAMMA: 0, 0, 0; Y: 1/2, 1/2, 0; T: 1/2, 1/2, 1/2; T2: 1/2, 1/2, -1/2; Z: 0, 0, 1/2; Z2: 0, 0, -1/2; S: 0, 1/2, 0; R: 0, 1/2, 1/2; R2: 0, 1/2, -1/2; DELTA0: -zeta, zeta, 0; F0: zeta, 1 - zeta, 0; B0: -zeta, zeta, 1/2; B2: -zeta, zeta, -1/2; G0: zeta, 1 - zeta, 1/2; G2: zeta, 1 - zeta, -1/2",
        "GAMMA-Y-F0|DELTA0-GAMMA-Z-B0|G0-T-Y|GAMMA-S-R-Z-T"),
    "oA1": (
        "zeta = (1 + (b / c) ** 2) / 4",
        "GAMMA: 0, 0, 0; Y: -1/2, 1/2, 0; T: -1/2, 1/2, 1/2; Z: 0, 0, 1/2; S: 0, 1/2, 0; R: 0, 1/2, 1/2; SIGMA0: zeta, zeta, 0; C0: -zeta, 1 - zeta, 0; A0: zeta, zeta, 1/2; E0: -zeta, 1 - zeta, 1/2",
        "GAMMA-Y-C0|SIGMA0-GAMMA-Z-A0|E0-T-Y|GAMMA-S-R-Z-T"),
    "oA2": (
        "zeta = (1 + (c / b) ** 2) / 4",
        "GAMMA: 0, 0, 0; Y: 1/2, 1/2, 0; T: 1/2, 1/2, 1/2; T2: 1/2, 1/2, -1/2; Z: 0, 0, 1/2; Z2: 0, 0, -1/2; S: 0, 1/2, 0; R: 0, 1/2, 1/2; R2: 0, 1/2, -1/2; DELTA0: -zeta, zeta, 0; F0: zeta, 1 - zeta, 0; B0: -zeta, zeta, 1/2; B2: -zeta, zeta, -1/2; G0: zeta, 1 - zeta, 1/2; G2: zeta, 1 - zeta, -1/2",
        "GAMMA-Y-F0|DELTA0-GAMMA-Z-B0|G0-T-Y|GAMMA-S-R-Z-T"),
    "hP1": (
        "",
        "GAMMA: 0, 0, 0; A: 0, 0, 1/2; K: 1/3, 1/3, 0; H: 1/3, 1/3, 1/2; H2: 1/3, 1/3, -1/2; M: 1/2, 0, 0; L: 1/2, 0, 1/2",
        "GAMMA-M-K-GAMMA-A-L-H-A|L-M|H-K-H2"),
    "hP2": (
        "",
        "GAMMA: 0, 0, 0; A: 0, 0, 1/2; K: 1/3, 1/3, 0; H: 1/3, 1/3, 1/2; H2: 1/3, 1/3, -1/2; M: 1/2, 0, 0; L: 1/2, 0, 1/2",
        "GAMMA-M-K-GAMMA-A-L-H-A|L-M|H-K"),
    "hR1": (
        "delta = (a / c) ** 2 / 4; eta = 5 / 6 - 2 * delta; nu = 1 / 3 + delta",
        "GAMMA: 0, 0, 0; T: 1/2, 1/2, 1/2; L: 1/2, 0, 0; L2: 0, -1/2, 0; L4: 0, 0, -1/2; F: 1/2, 0, 1/2; F2: 1/2, 1/2, 0; S0: nu, -nu, 0; S2: 1 - nu, 0, nu; S4: nu, 0, -nu; S6: 1 - nu, nu, 0; H0: 1/2, -1 + eta, 1 - eta; H2: eta, 1 - eta, 1/2; H4: eta, 1/2, 1 - eta; H6: 1/2, 1 - eta, -1 + eta; M0: nu, -1 + eta, nu; M2: 1 - nu, 1 - eta, 1 - nu; M4: eta, nu, nu; M6: 1 - nu, 1 - nu, 1 - eta; M8: nu, nu, -1 + eta",
        "GAMMA-T-H2|H0-L-GAMMA-S0|S2-F-GAMMA"),
    "hR2": (
        "zeta = 1 / 6 - (c / a) ** 2 / 9; eta = 1 / 2 - 2 * zeta; nu = 1 / 2 + zeta",
        "GAMMA: 0, 0, 0; T: 1/2, -1/2, 1/2; P0: eta, -1 + eta, eta; P2: eta, eta, eta; R0: 1 - eta, -eta, -eta; M: 1 - nu, -nu, 1 - nu; M2: nu, -1 + nu, -1 + nu; L: 1/2, 0, 0; F: 1/2, -1/2, 0",
        "GAMMA-L-T-P0|P2-GAMMA-F"),
    "mP1": (
        "eta = (1 + a / c * cos(beta)) / 2 / sin(beta) ** 2; nu = 1 / 2 + eta * c * cos(beta) / a",
        "GAMMA: 0, 0, 0; Z: 0, 1/2, 0; B: 0, 0, 1/2; B2: 0, 0, -1/2; Y: 1/2, 0, 0; Y2: -1/2, 0, 0; C: 1/2, 1/2, 0; C2: -1/2, 1/2, 0; D: 0, 1/2, 1/2; D2: 0, 1/2, -1/2; A: -1/2, 0, 1/2; E: -1/2, 1/2, 1/2; H: -eta, 0, 1 - nu; H2: -1 + eta, 0, nu; H4: -eta, 0, -nu; M: -eta, 1/2, 1 - nu; M2: -1 + eta, 1/2, nu; M4: -eta, 1/2, -nu",
        "GAMMA-Z-D-B-GAMMA-A-E-Z-C2-Y2-GAMMA"),
    "mC1": (
        "zeta = (2 + a / c * cos(beta)) / 4 / sin(beta) ** 2; eta = 1 / 2 - 2 * zeta * c * cos(beta) / a; psi = 3 / 4 - b ** 2 / 4 / a ** 2 / sin(beta) ** 2; phi = psi - (3 / 4 - psi) * a * cos(beta) / c",
        "GAMMA: 0, 0, 0; Y2: -1/2, 1/2, 0; Y4: 1/2, -1/2, 0; A: 0, 0, 1/2; M2: -1/2, 1/2, 1/2; V: 1/2, 0, 0; V2: 0, 1/2, 0; L2: 0, 1/2, 1/2; C: 1 - psi, 1 - psi, 0; C2: -1 + psi, psi, 0; C4: psi, -1 + psi, 0; D: -1 + phi, phi, 1/2; D2: 1 - phi, 1 - phi, 1/2; E: -1 + zeta, 1 - zeta, 1 - eta; E2: -zeta, zeta, eta; E4: zeta, -zeta, 1 - eta",
        "GAMMA-C|C2-Y2-GAMMA-M2-D|D2-A-GAMMA|L2-GAMMA-V2"),
    "mC2": (
        "mu = (1 + (a / b) ** 2) / 4; delta = -a * c * cos(beta) / 2 / b ** 2; zeta = ((a / b) ** 2 + (1 + a / c * cos(beta)) / sin(beta) ** 2) / 4; eta = 1 / 2 - 2 * zeta * c * cos(beta) / a; phi = 1 + zeta - 2 * mu; psi = eta - 2 * delta",
        "GAMMA: 0, 0, 0; Y: 1/2, 1/2, 0; A: 0, 0, 1/2; M: 1/2, 1/2, 1/2; V2: 0, 1/2, 0; L2: 0, 1/2, 1/2; F: -1 + phi, 1 - phi, 1 - psi; F2: 1 - phi, phi, psi; F4: phi, 1 - phi, 1 - psi; H: -zeta, zeta, eta; H2: zeta, 1 - zeta, 1 - eta; H4: zeta, -zeta, 1 - eta; G: -mu, mu, delta; G2: mu, 1 - mu, -delta; G4: mu, -mu, -delta; G6: 1 - mu, mu, delta",
        "GAMMA-Y-M-A-GAMMA|L2-GAMMA-V2"),
    "mC3": (
        "zeta = ((a / b) ** 2 + (1 + a / c * cos(beta)) / sin(beta) ** 2) / 4; rho = 1 - zeta * (b / a) ** 2; eta = 1 / 2 - 2 * zeta * c * cos(beta) / a; mu = eta / 2 + (a / b) ** 2 / 4 + a * c * cos(beta) / 2 / b ** 2; nu = 2 * mu - zeta; omega = c * (1 - 4 * nu + (a / b) ** 2 * sin(beta) ** 2) / 2 / a / cos(beta); delta = -1 / 4 + omega / 2 - zeta * (c / a) * cos(beta)",
        "GAMMA: 0, 0, 0; Y: 1/2, 1/2, 0; A: 0, 0, 1/2; M2: -1/2, 1/2, 1/2; V: 1/2, 0, 0; V2: 0, 1/2, 0; L2: 0, 1/2, 1/2; I: -1 + rho, rho, 1/2; I2: 1 - rho, 1 - rho, 1/2; K: -nu, nu, omega; K2: -1 + nu, 1 - nu, 1 - omega; K4: 1 - nu, nu, omega; H: -zeta, zeta, eta; H2: zeta, 1 - zeta, 1 - eta; H4: zeta, -zeta, 1 - eta; N: -mu, mu, delta; N2: mu, 1 - mu, -delta; N4: mu, -mu, -delta; N6: 1 - mu, mu, delta",
        "GAMMA-A-I2|I-M2-GAMMA-Y|L2-GAMMA-V2"),
    "aP2": (
        "",
        "GAMMA: 0, 0, 0; Z: 0, 0, 1/2; Y: 0, 1/2, 0; X: 1/2, 0, 0; V: 1/2, 1/2, 0; U: 1/2, 0, 1/2; T: 0, 1/2, 1/2; R: 1/2, 1/2, 1/2",
        "GAMMA-X|Y-GAMMA-Z|R-GAMMA-T|U-GAMMA-V"),
    "aP3": (
        "",
        "GAMMA: 0, 0, 0; Z: 0, 0, 1/2; Y: 0, 1/2, 0; Y2: 0, -1/2, 0; X: 1/2, 0, 0; V2: 1/2, -1/2, 0; U2: -1/2, 0, 1/2; T2: 0, -1/2, 1/2; R2: -1/2, -1/2, 1/2",
        "GAMMA-X|Y-GAMMA-Z|R2-GAMMA-T2|U2-GAMMA-V2"),
}

SC = {
    "CUB": (
        "",
        "GAMMA: 0, 0, 0; M: 1/2, 1/2, 0; R: 1/2, 1/2, 1/2; X: 0, 1/2, 0",
        "GAMMA-X-M-GAMMA-R-X|M-R"),
    "FCC": (
        "",
        "GAMMA: 0, 0, 0; K: 3/8, 3/8, 3/4; L: 1/2, 1/2, 1/2; U: 5/8, 1/4, 5/8; W: 1/2, 1/4, 3/4; X: 1/2, 0, 1/2",
        "GAMMA-X-W-K-GAMMA-L-U-W-L-K|U-X"),
    "BCC": (
        "",
        "GAMMA: 0, 0, 0; H: 1/2, -1/2, 1/2; P: 1/4, 1/4, 1/4; N: 0, 0, 1/2",
        "GAMMA-H-N-GAMMA-P-H|P-N"),
    "TET": (
        "",
        "GAMMA: 0, 0, 0; A: 1/2, 1/2, 1/2; M: 1/2, 1/2, 0; R: 0, 1/2, 1/2; X: 0, 1/2, 0; Z: 0, 0, 1/2",
        "GAMMA-X-M-GAMMA-Z-R-A-Z|X-R|M-A"),
    "BCT1": (
        "eta = (1 + c ** 2 / a ** 2) / 4",
        "GAMMA: 0, 0, 0; M: -1/2, 1/2, 1/2; N: 0, 1/2, 0; P: 1/4, 1/4, 1/4; X: 0, 0, 1/2; Z: eta, eta, -eta; Z1: -eta, 1 - eta, eta",
        "GAMMA-X-M-GAMMA-Z-P-N-Z1-M|X-P"),
    "BCT2": (
        "eta = (1 + a ** 2 / c ** 2) / 4; zeta = a ** 2 / (2 * c ** 2)",
        "GAMMA: 0, 0, 0; N: 0, 1/2, 0; P: 1/4, 1/4, 1/4; SIGMA: -eta, eta, eta; SIGMA1: eta, 1 - eta, -eta; X: 0, 0, 1/2; Y: -zeta, zeta, 1/2; Y1: 1/2, 1/2, -zeta; Z: 1/2, 1/2, -1/2",
        "GAMMA-X-Y-SIGMA-GAMMA-Z-SIGMA1-N-P-Y1-Z|X-P"),
    "ORC": (
        "",
        "GAMMA: 0, 0, 0; R: 1/2, 1/2, 1/2; S: 1/2, 1/2, 0; T: 0, 1/2, 1/2; U: 1/2, 0, 1/2; X: 1/2, 0, 0; Y: 0, 1/2, 0; Z: 0, 0, 1/2",
        "GAMMA-X-S-Y-GAMMA-Z-U-R-T-Z|Y-T|U-X|S-R"),
    "ORCF1": (
        "eta = (1 + a ** 2 / b ** 2 + a ** 2 / c ** 2) / 4; zeta = (1 + a ** 2 / b ** 2 - a ** 2 / c ** 2) / 4",
        "GAMMA: 0, 0, 0; A: 1/2, 1/2 + zeta, zeta; A1: 1/2, 1/2 - zeta, 1 - zeta; L: 1/2, 1/2, 1/2; T: 1, 1/2, 1/2; X: 0, eta, eta; X1: 1, 1 - eta, 1 - eta; Y: 1/2, 0, 1/2; Z: 1/2, 1/2, 0",
        "GAMMA-Y-T-Z-GAMMA-X-A1-Y|T-X1|X-A-Z|L-GAMMA"),
    "ORCF3": (
        "eta = (1 + a ** 2 / b ** 2 + a ** 2 / c ** 2) / 4; zeta = (1 + a ** 2 / b ** 2 - a ** 2 / c ** 2) / 4",
        "GAMMA: 0, 0, 0; A: 1/2, 1/2 + zeta, zeta; A1: 1/2, 1/2 - zeta, 1 - zeta; L: 1/2, 1/2, 1/2; T: 1, 1/2, 1/2; X: 0, eta, eta; X1: 1, 1 - eta, 1 - eta; Y: 1/2, 0, 1/2; Z: 1/2, 1/2, 0",
        "GAMMA-Y-T-Z-GAMMA-X-A1-Y|X-A-Z|L-GAMMA"),
    "ORCF2": (
        "eta = (1 + a ** 2 / b ** 2 - a ** 2 / c ** 2) / 4; delta = (1 + b ** 2 / a ** 2 - b ** 2 / c ** 2) / 4; phi = (1 + c ** 2 / b ** 2 - c ** 2 / a ** 2) / 4",
        "GAMMA: 0, 0, 0; C: 1/2, 1/2 - eta, 1 - eta; C1: 1/2, 1/2 + eta, eta; D: 1/2 - delta, 1/2, 1 - delta; D1: 1/2 + delta, 1/2, delta; L: 1/2, 1/2, 1/2; H: 1 - phi, 1/2 - phi, 1/2; H1: phi, 1/2 + phi, 1/2; X: 0, 1/2, 1/2; Y: 1/2, 0, 1/2; Z: 1/2, 1/2, 0",
        "GAMMA-Y-C-D-X-GAMMA-Z-D1-H-C|C1-Z|X-H1|H-Y|L-GAMMA"),
    "ORCI": (
        "zeta = (1 + a ** 2 / c ** 2) / 4; eta = (1 + b ** 2 / c ** 2) / 4; delta = (b ** 2 - a ** 2) / (4 * c ** 2); mu = (a ** 2 + b ** 2) / (4 * c ** 2)",
        "GAMMA: 0, 0, 0; L: -mu, mu, 1/2 - delta; L1: mu, -mu, 1/2 + delta; L2: 1/2 - delta, 1/2 + delta, -mu; R: 0, 1/2, 0; S: 1/2, 0, 0; T: 0, 0, 1/2; W: 1/4, 1/4, 1/4; X: -zeta, zeta, zeta; X1: zeta, 1 - zeta, -zeta; Y: eta, -eta, eta; Y1: 1 - eta, eta, -eta; Z: 1/2, 1/2, -1/2",
        "GAMMA-X-L-T-W-R-X1-Z-GAMMA-Y-S-W|L1-Y|Y1-Z"),
    "ORCC": (
        "zeta = (1 + a ** 2 / b ** 2) / 4",
        "GAMMA: 0, 0, 0; A: zeta, zeta, 1/2; A1: -zeta, 1 - zeta, 1/2; R: 0, 1/2, 1/2; S: 0, 1/2, 0; T: -1/2, 1/2, 1/2; X: zeta, zeta, 0; X1: -zeta, 1 - zeta, 0; Y: -1/2, 1/2, 0; Z: 0, 0, 1/2",
        "GAMMA-X-S-R-A-Z-GAMMA-Y-X1-A1-T-Y|Z-T"),
    "HEX": (
        "",
        "GAMMA: 0, 0, 0; A: 0, 0, 1/2; H: 1/3, 1/3, 1/2; K: 1/3, 1/3, 0; L: 1/2, 0, 1/2; M: 1/2, 0, 0",
        "GAMMA-M-K-GAMMA-A-L-H-A|L-M|K-H"),
    "RHL1": (
        "eta = (1 + 4 * cos(alpha)) / (2 + 4 * cos(alpha)); nu = 3 / 4 - eta / 2",
        "GAMMA: 0, 0, 0; B: eta, 1/2, 1 - eta; B1: 1/2, 1 - eta, eta - 1; F: 1/2, 1/2, 0; L: 1/2, 0, 0; L1: 0, 0, -1/2; P: eta, nu, nu; P1: 1 - nu, 1 - nu, 1 - eta; P2: nu, nu, eta - 1; Q: 1 - nu, nu, 0; X: nu, 0, -nu; Z: 1/2, 1/2, 1/2",
        "GAMMA-L-B1|B-Z-GAMMA-X|Q-F-P1-Z|L-P"),
    "RHL2": (
        "eta = 1 / (2 * tan(alpha / 2) ** 2); nu = 3 / 4 - eta / 2",
        "GAMMA: 0, 0, 0; F: 1/2, -1/2, 0; L: 1/2, 0, 0; P: 1 - nu, -nu, 1 - nu; P1: nu, nu - 1, nu - 1; Q: eta, eta, eta; Q1: 1 - eta, -eta, -eta; Z: 1/2, -1/2, 1/2",
        "GAMMA-P-Z-Q-GAMMA-F-P1-Q1-L-Z"),
    "MCL": (
        "eta = (1 - b * cos(alpha) / c) / (2 * sin(alpha) ** 2); nu = 1 / 2 - eta * c * cos(alpha) / b",
        "GAMMA: 0, 0, 0; A: 1/2, 1/2, 0; C: 0, 1/2, 1/2; D: 1/2, 0, 1/2; D1: 1/2, 0, -1/2; E: 1/2, 1/2, 1/2; H: 0, eta, 1 - nu; H1: 0, 1 - eta, nu; H2: 0, eta, -nu; M: 1/2, eta, 1 - nu; M1: 1/2, 1 - eta, nu; M2: 1/2, eta, -nu; X: 0, 1/2, 0; Y: 0, 0, 1/2; Y1: 0, 0, -1/2; Z: 1/2, 0, 0",
        "GAMMA-Y-H-C-E-M1-A-X-H1|M-D-Z|Y-D"),
    "MCLC1": (
        "zeta = (2 - b * cos(alpha) / c) / (4 * sin(alpha) ** 2); eta = 1 / 2 + 2 * zeta * c * cos(alpha) / b; psi = 3 / 4 - a ** 2 / (4 * b ** 2 * sin(alpha) ** 2); phi = psi + (3 / 4 - psi) * b * cos(alpha) / c",
        "GAMMA: 0, 0, 0; N: 1/2, 0, 0; N1: 0, -1/2, 0; F: 1 - zeta, 1 - zeta, 1 - eta; F1: zeta, zeta, eta; F2: -zeta, -zeta, 1 - eta; F3: 1 - zeta, -zeta, 1 - eta; I: phi, 1 - phi, 1/2; I1: 1 - phi, phi - 1, 1/2; L: 1/2, 1/2, 1/2; M: 1/2, 0, 1/2; X: 1 - psi, psi - 1, 0; X1: psi, 1 - psi, 0; X2: psi - 1, -psi, 0; Y: 1/2, 1/2, 0; Y1: -1/2, -1/2, 0; Z: 0, 0, 1/2",
        "GAMMA-Y-F-L-I|I1-Z-F1|Y-X1|X-GAMMA-N|M-GAMMA"),
    "MCLC2": (
        "zeta = (2 - b * cos(alpha) / c) / (4 * sin(alpha) ** 2); eta = 1 / 2 + 2 * zeta * c * cos(alpha) / b; psi = 3 / 4 - a ** 2 / (4 * b ** 2 * sin(alpha) ** 2); phi = psi + (3 / 4 - psi) * b * cos(alpha) / c",
        "GAMMA: 0, 0, 0; N: 1/2, 0, 0; N1: 0, -1/2, 0; F: 1 - zeta, 1 - zeta, 1 - eta; F1: zeta, zeta, eta; F2: -zeta, -zeta, 1 - eta; F3: 1 - zeta, -zeta, 1 - eta; I: phi, 1 - phi, 1/2; I1: 1 - phi, phi - 1, 1/2; L: 1/2, 1/2, 1/2; M: 1/2, 0, 1/2; X: 1 - psi, psi - 1, 0; X1: psi, 1 - psi, 0; X2: psi - 1, -psi, 0; Y: 1/2, 1/2, 0; Y1: -1/2, -1/2, 0; Z: 0, 0, 1/2",
        "GAMMA-Y-F-L-I|I1-Z-F1|N-GAMMA-M"),
    "MCLC3": (
        "mu = (1 + b ** 2 / a ** 2) / 4; delta = b * c * cos(alpha) / (2 * a ** 2); zeta = mu - 1 / 4 + (1 - b * cos(alpha) / c) / (4 * sin(alpha) ** 2); eta = 1 / 2 + 2 * zeta * c * cos(alpha) / b; phi = 1 + zeta - 2 * mu; psi = eta - 2 * delta",
        "GAMMA: 0, 0, 0; F: 1 - phi, 1 - phi, 1 - psi; F1: phi, phi - 1, psi; F2: 1 - phi, -phi, 1 - psi; H: zeta, zeta, eta; H1: 1 - zeta, -zeta, 1 - eta; H2: -zeta, -zeta, 1 - eta; I: 1/2, -1/2, 1/2; M: 1/2, 0, 1/2; N: 1/2, 0, 0; N1: 0, -1/2, 0; X: 1/2, -1/2, 0; Y: mu, mu, delta; Y1: 1 - mu, -mu, -delta; Y2: -mu, -mu, -delta; Y3: mu, mu - 1, delta; Z: 0, 0, 1/2",
        "GAMMA-Y-F-H-Z-I-F1|H1-Y1-X-GAMMA-N|M-GAMMA"),
    "MCLC4": (
        "mu = (1 + b ** 2 / a ** 2) / 4; delta = b * c * cos(alpha) / (2 * a ** 2); zeta = mu - 1 / 4 + (1 - b * cos(alpha) / c) / (4 * sin(alpha) ** 2); eta = 1 / 2 + 2 * zeta * c * cos(alpha) / b; phi = 1 + zeta - 2 * mu; psi = eta - 2 * delta",
        "GAMMA: 0, 0, 0; F: 1 - phi, 1 - phi, 1 - psi; F1: phi, phi - 1, psi; F2: 1 - phi, -phi, 1 - psi; H: zeta, zeta, eta; H1: 1 - zeta, -zeta, 1 - eta; H2: -zeta, -zeta, 1 - eta; I: 1/2, -1/2, 1/2; M: 1/2, 0, 1/2; N: 1/2, 0, 0; N1: 0, -1/2, 0; X: 1/2, -1/2, 0; Y: mu, mu, delta; Y1: 1 - mu, -mu, -delta; Y2: -mu, -mu, -delta; Y3: mu, mu - 1, delta; Z: 0, 0, 1/2",
        "GAMMA-Y-F-H-Z-I|H1-Y1-X-GAMMA-N|M-GAMMA"),
    "MCLC5": (
        "zeta = (b ** 2 / a ** 2 + (1 - b * cos(alpha) / c) / sin(alpha) ** 2) / 4; eta = 1 / 2 + 2 * zeta * c * cos(alpha) / b; mu = eta / 2 + b ** 2 / (4 * a ** 2) - b * c * cos(alpha) / (2 * a ** 2); nu = 2 * mu - zeta; rho = 1 - zeta * a ** 2 / b ** 2; omega = (4 * nu - 1 - b ** 2 * sin(alpha) ** 2 / a ** 2) * c / (2 * b * cos(alpha)); delta = zeta * c * cos(alpha) / b + omega / 2 - 1 / 4",
        "GAMMA: 0, 0, 0; F: nu, nu, omega; F1: 1 - nu, 1 - nu, 1 - omega; F2: nu, nu - 1, omega; H: zeta, zeta, eta; H1: 1 - zeta, -zeta, 1 - eta; H2: -zeta, -zeta, 1 - eta; I: rho, 1 - rho, 1/2; I1: 1 - rho, rho - 1, 1/2; L: 1/2, 1/2, 1/2; M: 1/2, 0, 1/2; N: 1/2, 0, 0; N1: 0, -1/2, 0; X: 1/2, -1/2, 0; Y: mu, mu, delta; Y1: 1 - mu, -mu, -delta; Y2: -mu, -mu, -delta; Y3: mu, mu - 1, delta; Z: 0, 0, 1/2",
        "GAMMA-Y-F-L-I|I1-Z-H-F1|H1-Y1-X-GAMMA-N|M-GAMMA"),
    "TRI1a": (
        "",
        "GAMMA: 0, 0, 0; L: 1/2, 1/2, 0; M: 0, 1/2, 1/2; N: 1/2, 0, 1/2; R: 1/2, 1/2, 1/2; X: 1/2, 0, 0; Y: 0, 1/2, 0; Z: 0, 0, 1/2",
        "X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA"),
    "TRI2a": (
        "",
        "GAMMA: 0, 0, 0; L: 1/2, 1/2, 0; M: 0, 1/2, 1/2; N: 1/2, 0, 1/2; R: 1/2, 1/2, 1/2; X: 1/2, 0, 0; Y: 0, 1/2, 0; Z: 0, 0, 1/2",
        "X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA"),
    "TRI1b": (
        "",
        "GAMMA: 0, 0, 0; L: 1/2, -1/2, 0; M: 0, 0, 1/2; N: -1/2, -1/2, 1/2; R: 0, -1/2, 1/2; X: 0, -1/2, 0; Y: 1/2, 0, 0; Z: -1/2, 0, 1/2",
        "X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA"),
    "TRI2b": (
        "",
        "GAMMA: 0, 0, 0; L: 1/2, -1/2, 0; M: 0, 0, 1/2; N: -1/2, -1/2, 1/2; R: 0, -1/2, 1/2; X: 0, -1/2, 0; Y: 1/2, 0, 0; Z: -1/2, 0, 1/2",
        "X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA"),
}


def points(table, symbol, conv, prms):
    """Relative coordinates of the points for the lattice parameters prms of the conventional cell."""
    import math
    a, b, c, al, be, ga = prms
    ns = dict(a=a, b=b, c=c, alpha=math.radians(al), beta=math.radians(be), cos=math.cos, sin=math.sin, tan=math.tan)
    pars, pts, path = table[symbol]
    for x in filter(None, (y.strip() for y in pars.split(";"))):
        k, v = x.split(" = ")
        ns[k] = eval(v, {}, ns)
    out = {}
    for x in pts.split(";"):
        k, v = x.split(":")
        out[k.strip()] = [float(eval(y, {}, ns)) for y in v.split(",")]
    return out, path
