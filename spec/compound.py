"""Reference compositions of the compound (shallow water) constituents (read by the analysis).

(parent, exponent of the parent amplitude factor, multiple of the parent nodal phase)"""
M2, K1, K2, O1, Q1, L2, J1, OO1 = 'm2', 'k1', 'k2', 'o1', 'q1', 'l2', 'j1', 'oo1'
COMPOUND = [
    ([(M2, 1, -1)], ['2sm2']),
    ([(M2, 2, 2)], ['2(ms)8', '2mp3', '2mp5', '2mr6', '2ms2', '2ms3', '2ms6', '2ms8', '2msp7', '2mt6', '2ns2', 'm4', 'mmu4', 'mmus2',
                    'mn4', 'mns2', 'mns6', 'mnu4', 'mnus2', 'msmu6', 'msn6', 'n4']),
    ([(M2, 2, 0)], ['msn2', 'nsm2', 'snm2']),
    ([(M2, 3, 1)], ['2mn2', 'mmun2']),
    ([(M2, 3, 3)], ['2mmu6', '2mn2s2', '2mn6', '2mnu6', '2msn8', '2nm6', '3m2s10', '3m2s2', '3mp5', '3mp7', '3ms4', '3ms5', '3ms8', 'm6',
                    'mnmu6', 'mnnu6']),
    ([(M2, 4, 4)], ['2(mn)8', '2mn8', '3mmu8', '3mn8', '3mnu8', '3msn10', '4m2s12', '4ms10', 'm8', 'ma8']),
    ([(M2, 5, 5)], ['4mn10', '4mns12', '4msn12', '5ms12', 'm10']),
    ([(M2, 6, 6)], ['5mn12', '5msn14', '6ms14', 'm12']),
    ([(M2, 7, 7)], ['m14']),
    ([(O1, 1, -1)], ['2po1', '2so3', 'so1']),
    ([(O1, 3, 3)], ['o3']),
    ([(K1, 1, -1)], ['tk1']),
    ([(K1, 2, 2)], ['2k2']),
    ([(OO1, 2, 2)], ['2oop1']),
    ([(K1, 1, 1), (K2, 1, 1)], ['k3']),
    ([(K1, 1, 1), (J1, 1, 1)], ['kj2']),
    ([(K1, 1, 1), (J1, 1, 1), (Q1, 1, -1)], ['kjq1']),
    ([(O1, 1, 1), (K1, 1, 1)], ['ko2']),
    ([(O1, 1, 1), (K1, 1, -1)], ['opk1']),
    ([(O1, 1, 1), (Q1, 1, 1)], ['oq2']),
    ([(O1, 2, 2), (Q1, 1, -1)], ['2oq1']),
    ([(OO1, 2, 2), (K1, 1, -1)], ['2ook1']),
    ([(M2, 1, 1), (O1, 1, 1)], ['mo3', 'mso5', 'no3']),
    ([(M2, 1, 1), (O1, 1, -1)], ['no1', 'nso3']),
    ([(M2, 2, 2), (O1, 1, 1)], ['2mo5', '2mso7', '2no5', 'mno5']),
    ([(M2, 2, 2), (O1, 1, -1)], ['2no3']),
    ([(M2, 3, 3), (O1, 1, 1)], ['2mno7', '3mo7']),
    ([(M2, 1, 1), (Q1, 1, 1)], ['mq3', 'nq3']),
    ([(M2, 2, 2), (Q1, 1, -1)], ['2mq3']),
    ([(M2, 1, 1), (K1, 1, 1)], ['mk3', 'msk5', 'nk3', 'nsk5']),
    ([(M2, 1, 1), (K1, 3, 3)], ['3km5']),
    ([(M2, 2, 2), (K1, 1, 1)], ['2mk5', '2msk7', '2nk5', 'mnk5']),
    ([(M2, 2, 2), (K1, 1, -1)], ['2mk3']),
    ([(M2, 3, 3), (K1, 1, 1)], ['2mnk7', '2nmk7', '3mk7', '3msk9', '3nk7']),
    ([(M2, 3, 3), (K1, 1, -1)], ['3msk7']),
    ([(M2, 4, 4), (K1, 1, 1)], ['2(mn)k9', '2m2nk9', '3mnk9', '3nmk9', '4mk9', '4msk11']),
    ([(M2, 1, 1), (K2, 1, 1)], ['mk4', 'mks2', 'msk6', 'nk4', 'snk6']),
    ([(M2, 1, 1), (K2, 1, -1)], ['2smk4', 'msk2']),
    ([(M2, 1, -1), (K2, 1, 1)], ['skm2']),
    ([(M2, 1, 1), (K2, 2, 2)], ['m2(ks)2']),
    ([(M2, 2, 2), (K2, 1, 1)], ['2mk6', '2msk8', 'mnk6', 'msnk8']),
    ([(M2, 2, 2), (K2, 1, -1)], ['2mk2', 'mnk2']),
    ([(M2, 2, 0), (K2, 1, 1)], ['mkn2', 'nkm2']),
    ([(M2, 2, 2), (K2, 2, -2)], ['2ms2k2']),
    ([(M2, 3, 3), (K2, 1, 1)], ['2mnk8', '3mk8']),
    ([(M2, 1, 1), (K2, 1, 1), (O1, 1, 1)], ['mko5', 'msko7']),
    ([(M2, 1, 1), (L2, 1, 1)], ['ml4', 'msl6']),
    ([(M2, 2, 2), (L2, 1, 1)], ['2ml2s2', '2ml6', '2mls4', '2msl8']),
    ([(M2, 2, 2), (L2, 1, -1)], ['2ml2']),
    ([(M2, 3, 3), (L2, 1, 1)], ['2mnl8', '2mnls6', '2nmls6', '3ml8', '3mls6', '3msl10']),
    ([(M2, 4, 4), (L2, 1, 1)], ['4msl12'])]

# multiples (positive or negative) of the parents whose Doodson coefficients add up to the constituent
SOLAR = ['s1', 's2', 't2', 'r2', 'p1']
