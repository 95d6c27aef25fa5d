//! The reference model against the verification tables printed in the IAPWS releases.
use crate::refm::*;

pub fn check() -> Result<(), String> {
    let mut bad = vec![];
    let mut c = |n: &str, g: f64, w: f64, tol: f64| {
        if !((g / w - 1.0).abs() <= tol) {
            bad.push(format!("{n}: {g:?} instead of {w:?}"));
        }
    };
    {
        let s = reg1(3.0, 300.0);
        c("reg1 v", s.v, 0.100215168e-2, 1e-8);
        c("reg1 h", s.h, 0.115331273e3, 1e-8);
        c("reg1 u", s.u, 0.112324818e3, 1e-8);
        c("reg1 s", s.s, 0.392294792, 1e-8);
        c("reg1 cp", s.cp, 0.417301218e1, 1e-8);
        c("reg1 w", s.w, 0.150773921e4, 1e-8);
    }
    {
        let s = reg1(80.0, 300.0);
        c("reg1 v", s.v, 0.971180894e-3, 1e-8);
        c("reg1 h", s.h, 0.184142828e3, 1e-8);
        c("reg1 u", s.u, 0.106448356e3, 1e-8);
        c("reg1 s", s.s, 0.368563852, 1e-8);
        c("reg1 cp", s.cp, 0.401008987e1, 1e-8);
        c("reg1 w", s.w, 0.163469054e4, 1e-8);
    }
    {
        let s = reg1(3.0, 500.0);
        c("reg1 v", s.v, 0.120241800e-2, 1e-8);
        c("reg1 h", s.h, 0.975542239e3, 1e-8);
        c("reg1 u", s.u, 0.971934985e3, 1e-8);
        c("reg1 s", s.s, 0.258041912e1, 1e-8);
        c("reg1 cp", s.cp, 0.465580682e1, 1e-8);
        c("reg1 w", s.w, 0.124071337e4, 1e-8);
    }
    {
        let s = reg2(0.0035, 300.0);
        c("reg2 v", s.v, 0.394913866e2, 1e-8);
        c("reg2 h", s.h, 0.254991145e4, 1e-8);
        c("reg2 u", s.u, 0.241169160e4, 1e-8);
        c("reg2 s", s.s, 0.852238967e1, 1e-8);
        c("reg2 cp", s.cp, 0.191300162e1, 1e-8);
        c("reg2 w", s.w, 0.427920172e3, 1e-8);
    }
    {
        let s = reg2(0.0035, 700.0);
        c("reg2 v", s.v, 0.923015898e2, 1e-8);
        c("reg2 h", s.h, 0.333568375e4, 1e-8);
        c("reg2 u", s.u, 0.301262819e4, 1e-8);
        c("reg2 s", s.s, 0.101749996e2, 1e-8);
        c("reg2 cp", s.cp, 0.208141274e1, 1e-8);
        c("reg2 w", s.w, 0.644289068e3, 1e-8);
    }
    {
        let s = reg2(30.0, 700.0);
        c("reg2 v", s.v, 0.542946619e-2, 1e-8);
        c("reg2 h", s.h, 0.263149474e4, 1e-8);
        c("reg2 u", s.u, 0.246861076e4, 1e-8);
        c("reg2 s", s.s, 0.517540298e1, 1e-8);
        c("reg2 cp", s.cp, 0.103505092e2, 1e-8);
        c("reg2 w", s.w, 0.480386523e3, 1e-8);
    }
    {
        let s = reg5(0.5, 1500.0);
        c("reg5 v", s.v, 0.138455090e1, 1e-8);
        c("reg5 h", s.h, 0.521976855e4, 1e-8);
        c("reg5 u", s.u, 0.452749310e4, 1e-8);
        c("reg5 s", s.s, 0.965408875e1, 1e-8);
        c("reg5 cp", s.cp, 0.261609445e1, 1e-8);
        c("reg5 w", s.w, 0.917068690e3, 1e-8);
    }
    {
        let s = reg5(30.0, 1500.0);
        c("reg5 v", s.v, 0.230761299e-1, 1e-8);
        c("reg5 h", s.h, 0.516723514e4, 1e-8);
        c("reg5 u", s.u, 0.447495124e4, 1e-8);
        c("reg5 s", s.s, 0.772970133e1, 1e-8);
        c("reg5 cp", s.cp, 0.272724317e1, 1e-8);
        c("reg5 w", s.w, 0.928548002e3, 1e-8);
    }
    {
        let s = reg5(30.0, 2000.0);
        c("reg5 v", s.v, 0.311385219e-1, 1e-8);
        c("reg5 h", s.h, 0.657122604e4, 1e-8);
        c("reg5 u", s.u, 0.563707038e4, 1e-8);
        c("reg5 s", s.s, 0.853640523e1, 1e-8);
        c("reg5 cp", s.cp, 0.288569882e1, 1e-8);
        c("reg5 w", s.w, 0.106736948e4, 1e-8);
    }
    {
        let s = reg3(500.0, 650.0);
        c("reg3 p", s.p, 0.255837018e2, 1e-8);
        c("reg3 h", s.h, 0.186343019e4, 1e-8);
        c("reg3 u", s.u, 0.181226279e4, 1e-8);
        c("reg3 s", s.s, 0.405427273e1, 1e-8);
        c("reg3 cp", s.cp, 0.138935717e2, 1e-8);
        c("reg3 w", s.w, 0.502005554e3, 1e-8);
    }
    {
        let s = reg3(200.0, 650.0);
        c("reg3 p", s.p, 0.222930643e2, 1e-8);
        c("reg3 h", s.h, 0.237512401e4, 1e-8);
        c("reg3 u", s.u, 0.226365868e4, 1e-8);
        c("reg3 s", s.s, 0.485438792e1, 1e-8);
        c("reg3 cp", s.cp, 0.446579342e2, 1e-8);
        c("reg3 w", s.w, 0.383444594e3, 1e-8);
    }
    {
        let s = reg3(500.0, 750.0);
        c("reg3 p", s.p, 0.783095639e2, 1e-8);
        c("reg3 h", s.h, 0.225868845e4, 1e-8);
        c("reg3 u", s.u, 0.210206932e4, 1e-8);
        c("reg3 s", s.s, 0.446971906e1, 1e-8);
        c("reg3 cp", s.cp, 0.634165359e1, 1e-8);
        c("reg3 w", s.w, 0.760696041e3, 1e-8);
    }
    c("psat(300.0)", psat(300.0), 0.353658941e-2, 1.5e-8);
    c("psat(500.0)", psat(500.0), 0.263889776e1, 1.5e-8);
    c("psat(600.0)", psat(600.0), 0.123443146e2, 1.5e-8);
    c("tsat(0.1)", tsat(0.1), 0.372755919e3, 1.5e-8);
    c("tsat(1.0)", tsat(1.0), 0.453035632e3, 1.5e-8);
    c("tsat(10.0)", tsat(10.0), 0.584149488e3, 1.5e-8);
    c("b23_p(623.15)", b23_p(623.15), 0.165291643e2, 1.5e-8);
    c("b23_t(16.5291642526045)", b23_t(16.5291642526045), 0.623150000e3, 1.5e-8);
    c("t1_ph(3.0, 500.0)", t1_ph(3.0, 500.0), 0.391798509e3, 1.5e-8);
    c("t1_ph(80.0, 500.0)", t1_ph(80.0, 500.0), 0.378108626e3, 1.5e-8);
    c("t1_ph(80.0, 1500.0)", t1_ph(80.0, 1500.0), 0.611041229e3, 1.5e-8);
    c("t1_ps(3.0, 0.5)", t1_ps(3.0, 0.5), 0.307842258e3, 1.5e-8);
    c("t1_ps(80.0, 0.5)", t1_ps(80.0, 0.5), 0.309979785e3, 1.5e-8);
    c("t1_ps(80.0, 3.0)", t1_ps(80.0, 3.0), 0.565899909e3, 1.5e-8);
    c("t2_ph(0.001, 3000.0)", t2_ph(0.001, 3000.0), 0.534433241e3, 1.5e-8);
    c("t2_ph(3.0, 3000.0)", t2_ph(3.0, 3000.0), 0.575373370e3, 1.5e-8);
    c("t2_ph(3.0, 4000.0)", t2_ph(3.0, 4000.0), 0.101077577e4, 1.5e-8);
    c("t2_ph(5.0, 3500.0)", t2_ph(5.0, 3500.0), 0.801299102e3, 1.5e-8);
    c("t2_ph(5.0, 4000.0)", t2_ph(5.0, 4000.0), 0.101531583e4, 1.5e-8);
    c("t2_ph(25.0, 3500.0)", t2_ph(25.0, 3500.0), 0.875279054e3, 1.5e-8);
    c("t2_ph(40.0, 2700.0)", t2_ph(40.0, 2700.0), 0.743056411e3, 1.5e-8);
    c("t2_ph(60.0, 2700.0)", t2_ph(60.0, 2700.0), 0.791137067e3, 1.5e-8);
    c("t2_ph(60.0, 3200.0)", t2_ph(60.0, 3200.0), 0.882756860e3, 1.5e-8);
    c("t2_ps(0.1, 7.5)", t2_ps(0.1, 7.5), 0.399517097e3, 1.5e-8);
    c("t2_ps(0.1, 8.0)", t2_ps(0.1, 8.0), 0.514127081e3, 1.5e-8);
    c("t2_ps(2.5, 8.0)", t2_ps(2.5, 8.0), 0.103984917e4, 1.5e-8);
    c("t2_ps(8.0, 6.0)", t2_ps(8.0, 6.0), 0.600484040e3, 1.5e-8);
    c("t2_ps(8.0, 7.5)", t2_ps(8.0, 7.5), 0.106495556e4, 1.5e-8);
    c("t2_ps(90.0, 6.0)", t2_ps(90.0, 6.0), 0.103801126e4, 1.5e-8);
    c("t2_ps(20.0, 5.75)", t2_ps(20.0, 5.75), 0.697992849e3, 1.5e-8);
    c("t2_ps(80.0, 5.25)", t2_ps(80.0, 5.25), 0.854011484e3, 1.5e-8);
    c("t2_ps(80.0, 5.75)", t2_ps(80.0, 5.75), 0.949017998e3, 1.5e-8);
    c("p1_hs(0.001, 0.0)", p1_hs(0.001, 0.0), 0.9800980612e-3, 1.5e-9);
    c("p1_hs(90.0, 0.0)", p1_hs(90.0, 0.0), 0.9192954727e2, 1.5e-9);
    c("p1_hs(1500.0, 3.4)", p1_hs(1500.0, 3.4), 0.5868294423e2, 1.5e-9);
    c("p2_hs(2800.0, 6.5)", p2_hs(2800.0, 6.5), 0.1371012767e1, 1.5e-9);
    c("p2_hs(2800.0, 9.5)", p2_hs(2800.0, 9.5), 0.1879743844e-2, 1.5e-9);
    c("p2_hs(4100.0, 9.5)", p2_hs(4100.0, 9.5), 0.1024788997, 1.5e-9);
    c("p2_hs(2800.0, 6.0)", p2_hs(2800.0, 6.0), 0.4793911442e1, 1.5e-9);
    c("p2_hs(3600.0, 6.0)", p2_hs(3600.0, 6.0), 0.8395519209e2, 1.5e-9);
    c("p2_hs(3600.0, 7.0)", p2_hs(3600.0, 7.0), 0.7527161441e1, 1.5e-9);
    c("p2_hs(2800.0, 5.1)", p2_hs(2800.0, 5.1), 0.9439202060e2, 1.5e-9);
    c("p2_hs(2800.0, 5.8)", p2_hs(2800.0, 5.8), 0.8414574124e1, 1.5e-9);
    c("p2_hs(3400.0, 5.8)", p2_hs(3400.0, 5.8), 0.8376903879e2, 1.5e-9);
    c("t4_hs(1800.0, 5.3)", t4_hs(1800.0, 5.3), 0.3468475498e3, 1.5e-9);
    c("t4_hs(2400.0, 6.0)", t4_hs(2400.0, 6.0), 0.4251373305e3, 1.5e-9);
    c("t4_hs(2500.0, 5.5)", t4_hs(2500.0, 5.5), 0.5225579013e3, 1.5e-9);
    c("t3_ph_sub(true, 20.0, 1700.0)", t3_ph_sub(true, 20.0, 1700.0), 0.6293083892e3, 1.5e-9);
    c("t3_ph_sub(true, 50.0, 2000.0)", t3_ph_sub(true, 50.0, 2000.0), 0.6905718338e3, 1.5e-9);
    c("t3_ph_sub(true, 100.0, 2100.0)", t3_ph_sub(true, 100.0, 2100.0), 0.7336163014e3, 1.5e-9);
    c("t3_ph_sub(false, 20.0, 2500.0)", t3_ph_sub(false, 20.0, 2500.0), 0.6418418053e3, 1.5e-9);
    c("t3_ph_sub(false, 50.0, 2400.0)", t3_ph_sub(false, 50.0, 2400.0), 0.7351848618e3, 1.5e-9);
    c("t3_ph_sub(false, 100.0, 2700.0)", t3_ph_sub(false, 100.0, 2700.0), 0.8420460876e3, 1.5e-9);
    c("v3_ph_sub(true, 20.0, 1700.0)", v3_ph_sub(true, 20.0, 1700.0), 0.1749903962e-2, 1.5e-9);
    c("v3_ph_sub(true, 50.0, 2000.0)", v3_ph_sub(true, 50.0, 2000.0), 0.1908139035e-2, 1.5e-9);
    c("v3_ph_sub(true, 100.0, 2100.0)", v3_ph_sub(true, 100.0, 2100.0), 0.1676229776e-2, 1.5e-9);
    c("v3_ph_sub(false, 20.0, 2500.0)", v3_ph_sub(false, 20.0, 2500.0), 0.6670547043e-2, 1.5e-9);
    c("v3_ph_sub(false, 50.0, 2400.0)", v3_ph_sub(false, 50.0, 2400.0), 0.2801244590e-2, 1.5e-9);
    c("v3_ph_sub(false, 100.0, 2700.0)", v3_ph_sub(false, 100.0, 2700.0), 0.2404234998e-2, 1.5e-9);
    c("t3_ps_sub(true, 20.0, 3.8)", t3_ps_sub(true, 20.0, 3.8), 0.6282959869e3, 1.5e-9);
    c("t3_ps_sub(true, 50.0, 3.6)", t3_ps_sub(true, 50.0, 3.6), 0.6297158726e3, 1.5e-9);
    c("t3_ps_sub(true, 100.0, 4.0)", t3_ps_sub(true, 100.0, 4.0), 0.7056880237e3, 1.5e-9);
    c("t3_ps_sub(false, 20.0, 5.0)", t3_ps_sub(false, 20.0, 5.0), 0.6401176443e3, 1.5e-9);
    c("t3_ps_sub(false, 50.0, 4.5)", t3_ps_sub(false, 50.0, 4.5), 0.7163687517e3, 1.5e-9);
    c("t3_ps_sub(false, 100.0, 5.0)", t3_ps_sub(false, 100.0, 5.0), 0.8474332825e3, 1.5e-9);
    c("v3_ps_sub(true, 20.0, 3.8)", v3_ps_sub(true, 20.0, 3.8), 0.1733791463e-2, 1.5e-9);
    c("v3_ps_sub(true, 50.0, 3.6)", v3_ps_sub(true, 50.0, 3.6), 0.1469680170e-2, 1.5e-9);
    c("v3_ps_sub(true, 100.0, 4.0)", v3_ps_sub(true, 100.0, 4.0), 0.1555893131e-2, 1.5e-9);
    c("v3_ps_sub(false, 20.0, 5.0)", v3_ps_sub(false, 20.0, 5.0), 0.6262101987e-2, 1.5e-9);
    c("v3_ps_sub(false, 50.0, 4.5)", v3_ps_sub(false, 50.0, 4.5), 0.2332634294e-2, 1.5e-9);
    c("v3_ps_sub(false, 100.0, 5.0)", v3_ps_sub(false, 100.0, 5.0), 0.2449610757e-2, 1.5e-9);
    c("p3_hs_sub(true, 1700.0, 3.8)", p3_hs_sub(true, 1700.0, 3.8), 0.2555703246e2, 1.5e-9);
    c("p3_hs_sub(true, 2000.0, 4.2)", p3_hs_sub(true, 2000.0, 4.2), 0.4540873468e2, 1.5e-9);
    c("p3_hs_sub(true, 2100.0, 4.3)", p3_hs_sub(true, 2100.0, 4.3), 0.6078123340e2, 1.5e-9);
    c("p3_hs_sub(false, 2600.0, 5.1)", p3_hs_sub(false, 2600.0, 5.1), 0.3434999263e2, 1.5e-9);
    c("p3_hs_sub(false, 2400.0, 4.7)", p3_hs_sub(false, 2400.0, 4.7), 0.6363924887e2, 1.5e-9);
    c("p3_hs_sub(false, 2700.0, 5.0)", p3_hs_sub(false, 2700.0, 5.0), 0.8839043281e2, 1.5e-9);
    c("v3sub('a', 50.0, 630.0)", v3sub('a', 50.0, 630.0), 0.001470853100, 1.5e-9);
    c("v3sub('a', 80.0, 670.0)", v3sub('a', 80.0, 670.0), 0.001503831359, 1.5e-9);
    c("v3sub('b', 50.0, 710.0)", v3sub('b', 50.0, 710.0), 0.002204728587, 1.5e-9);
    c("v3sub('b', 80.0, 750.0)", v3sub('b', 80.0, 750.0), 0.001973692940, 1.5e-9);
    c("v3sub('c', 20.0, 630.0)", v3sub('c', 20.0, 630.0), 0.001761696406, 1.5e-9);
    c("v3sub('c', 30.0, 650.0)", v3sub('c', 30.0, 650.0), 0.001819560617, 1.5e-9);
    c("v3sub('d', 26.0, 656.0)", v3sub('d', 26.0, 656.0), 0.002245587720, 1.5e-9);
    c("v3sub('d', 30.0, 670.0)", v3sub('d', 30.0, 670.0), 0.002506897702, 1.5e-9);
    c("v3sub('e', 26.0, 661.0)", v3sub('e', 26.0, 661.0), 0.002970225962, 1.5e-9);
    c("v3sub('e', 30.0, 675.0)", v3sub('e', 30.0, 675.0), 0.003004627086, 1.5e-9);
    c("v3sub('f', 26.0, 671.0)", v3sub('f', 26.0, 671.0), 0.005019029401, 1.5e-9);
    c("v3sub('f', 30.0, 690.0)", v3sub('f', 30.0, 690.0), 0.004656470142, 1.5e-9);
    c("v3sub('g', 23.6, 649.0)", v3sub('g', 23.6, 649.0), 0.002163198378, 1.5e-9);
    c("v3sub('g', 24.0, 650.0)", v3sub('g', 24.0, 650.0), 0.002166044161, 1.5e-9);
    c("v3sub('h', 23.6, 652.0)", v3sub('h', 23.6, 652.0), 0.002651081407, 1.5e-9);
    c("v3sub('h', 24.0, 654.0)", v3sub('h', 24.0, 654.0), 0.002967802335, 1.5e-9);
    c("v3sub('i', 23.6, 653.0)", v3sub('i', 23.6, 653.0), 0.003273916816, 1.5e-9);
    c("v3sub('i', 24.0, 655.0)", v3sub('i', 24.0, 655.0), 0.003550329864, 1.5e-9);
    c("v3sub('j', 23.5, 655.0)", v3sub('j', 23.5, 655.0), 0.004545001142, 1.5e-9);
    c("v3sub('j', 24.0, 660.0)", v3sub('j', 24.0, 660.0), 0.005100267704, 1.5e-9);
    c("v3sub('k', 23.0, 660.0)", v3sub('k', 23.0, 660.0), 0.006109525997, 1.5e-9);
    c("v3sub('k', 24.0, 670.0)", v3sub('k', 24.0, 670.0), 0.006427325645, 1.5e-9);
    c("v3sub('l', 22.6, 646.0)", v3sub('l', 22.6, 646.0), 0.002117860851, 1.5e-9);
    c("v3sub('l', 23.0, 646.0)", v3sub('l', 23.0, 646.0), 0.002062374674, 1.5e-9);
    c("v3sub('m', 22.6, 648.6)", v3sub('m', 22.6, 648.6), 0.002533063780, 1.5e-9);
    c("v3sub('m', 22.8, 649.3)", v3sub('m', 22.8, 649.3), 0.002572971781, 1.5e-9);
    c("v3sub('n', 22.6, 649.0)", v3sub('n', 22.6, 649.0), 0.002923432711, 1.5e-9);
    c("v3sub('n', 22.8, 649.7)", v3sub('n', 22.8, 649.7), 0.002913311494, 1.5e-9);
    c("v3sub('o', 22.6, 649.1)", v3sub('o', 22.6, 649.1), 0.003131208996, 1.5e-9);
    c("v3sub('o', 22.8, 649.9)", v3sub('o', 22.8, 649.9), 0.003221160278, 1.5e-9);
    c("v3sub('p', 22.6, 649.4)", v3sub('p', 22.6, 649.4), 0.003715596186, 1.5e-9);
    c("v3sub('p', 22.8, 650.2)", v3sub('p', 22.8, 650.2), 0.003664754790, 1.5e-9);
    c("v3sub('q', 21.1, 640.0)", v3sub('q', 21.1, 640.0), 0.001970999272, 1.5e-9);
    c("v3sub('q', 21.8, 643.0)", v3sub('q', 21.8, 643.0), 0.002043919161, 1.5e-9);
    c("v3sub('r', 21.1, 644.0)", v3sub('r', 21.1, 644.0), 0.005251009921, 1.5e-9);
    c("v3sub('r', 21.8, 648.0)", v3sub('r', 21.8, 648.0), 0.005256844741, 1.5e-9);
    c("v3sub('s', 19.1, 635.0)", v3sub('s', 19.1, 635.0), 0.001932829079, 1.5e-9);
    c("v3sub('s', 20.0, 638.0)", v3sub('s', 20.0, 638.0), 0.001985387227, 1.5e-9);
    c("v3sub('t', 17.0, 626.0)", v3sub('t', 17.0, 626.0), 0.008483262001, 1.5e-9);
    c("v3sub('t', 20.0, 640.0)", v3sub('t', 20.0, 640.0), 0.006227528101, 1.5e-9);
    c("v3sub('u', 21.5, 644.6)", v3sub('u', 21.5, 644.6), 0.002268366647, 1.5e-9);
    c("v3sub('u', 22.0, 646.1)", v3sub('u', 22.0, 646.1), 0.002296350553, 1.5e-9);
    c("v3sub('v', 22.5, 648.6)", v3sub('v', 22.5, 648.6), 0.002832373260, 1.5e-9);
    c("v3sub('v', 22.3, 647.9)", v3sub('v', 22.3, 647.9), 0.002811424405, 1.5e-9);
    c("v3sub('w', 22.15, 647.5)", v3sub('w', 22.15, 647.5), 0.003694032281, 1.5e-9);
    c("v3sub('w', 22.3, 648.1)", v3sub('w', 22.3, 648.1), 0.003622226305, 1.5e-9);
    c("v3sub('x', 22.11, 648.0)", v3sub('x', 22.11, 648.0), 0.004528072649, 1.5e-9);
    c("v3sub('x', 22.3, 649.0)", v3sub('x', 22.3, 649.0), 0.004556905799, 1.5e-9);
    c("v3sub('y', 22.0, 646.84)", v3sub('y', 22.0, 646.84), 0.002698354719, 1.5e-9);
    c("v3sub('y', 22.064, 647.05)", v3sub('y', 22.064, 647.05), 0.002717655648, 1.5e-9);
    c("v3sub('z', 22.0, 646.89)", v3sub('z', 22.0, 646.89), 0.003798732962, 1.5e-9);
    c("v3sub('z', 22.064, 647.15)", v3sub('z', 22.064, 647.15), 0.003701940010, 1.5e-9);
    c("viscosity(998.0, 298.15)", viscosity(998.0, 298.15), 889.735100e-6, 1e-7);
    c("viscosity(1200.0, 298.15)", viscosity(1200.0, 298.15), 1437.649467e-6, 1e-7);
    c("viscosity(1000.0, 373.15)", viscosity(1000.0, 373.15), 307.883622e-6, 1e-7);
    c("viscosity(1.0, 433.15)", viscosity(1.0, 433.15), 14.538324e-6, 1e-7);
    c("viscosity(1.0, 873.15)", viscosity(1.0, 873.15), 32.619287e-6, 1e-7);
    c("viscosity(600.0, 873.15)", viscosity(600.0, 873.15), 77.430195e-6, 1e-7);
    c("conductivity(0.0, 298.15)", conductivity(0.0, 298.15), 18.4341883e-3, 1.5e-8);
    c("conductivity(998.0, 298.15)", conductivity(998.0, 298.15), 607.712868e-3, 1.5e-8);
    c("conductivity(1200.0, 298.15)", conductivity(1200.0, 298.15), 799.038144e-3, 1.5e-8);
    c("conductivity(0.0, 873.15)", conductivity(0.0, 873.15), 79.1034659e-3, 1.5e-8);
    c("surface_tension(300.0)", surface_tension(300.0), 0.0716859625, 1.5e-8);
    c("surface_tension(450.0)", surface_tension(450.0), 0.0428914992, 1.5e-8);
    c("surface_tension(600.0)", surface_tension(600.0), 0.00837561087, 1.5e-8);
    c("dielectric(999.242866, 298.15)", dielectric(999.242866, 298.15), 78.5907250, 1.5e-8);
    c("dielectric(26.0569558, 873.15)", dielectric(26.0569558, 873.15), 1.12620970, 1.5e-8);
    if bad.is_empty() {
        Ok(())
    } else {
        Err(format!("reference model: {}", bad.join("; ")))
    }
}
