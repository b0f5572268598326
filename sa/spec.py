"""What the public generators promise: the kind of every positional parameter.

kinds: L degree limit, M mass, rho density, len length, phic central azimuth,
phih azimuthal half width, ang other angle, N integer count, lmbd length.
+c2/+cy/+cz: the parameter changes sign under a half turn about z / reflection
of y / reflection of z of the solid (only used by the mirror property)."""

INNER = {
    'newt.qlm': {
        'sphere': 'L M len',
        'cylinder': 'L M len len',
        'annulus': 'L M len len len phic phih',
        'cone': 'L M len+cz len phic phih',
        'tri_iso_prism': 'L M len len len+c2 phic',
        'tri_iso_prism2': 'L M len len+c2 phic ang',
        'tri_prism': 'L M len len+c2 len+c2+cy len+c2+cy',
        'rect_prism': 'L M len len len phic',
        'ngon_prism': 'L M len len+c2 phic N',
        'tetrahedron': 'L M len+c2 len+c2+cy len+cz',
        'tetrahedron2': 'L M len+c2 len+c2+cy len+c2+cy len+cz',
        'pyramid': 'L M len+c2 len+c2+cy len+cz',
    },
    'newt.qlmACH': {
        'rect_prism': 'L rho len len len',
        'annulus': 'L rho len len len phic phih',
        'cone': 'L rho len+cz len len',
        'cone2': 'L rho len+cz len len',
        'tri_prism': 'L rho len len+c2 len+c2+cy len+c2+cy',
        'trapezoid': 'L rho len len len len+c2',
        'cylindrical_section': 'L rho len len len',
        'tetrahedron': 'L rho len+c2 len+c2+cy len+cz',
        'cylhole': 'L rho len len',
        'cylhole2': 'L rho len len',
        'platehole': 'L rho len len ang+c2+cz',
        'pyramid': 'L rho len+cz len len',
    },
    'newt.qlmNum': {
        'cyl_mom': 'L rho phihN len len len len',
        'cone_mom': 'L rho phihN len len len',
        'trap_mom': 'L rho phihN len len len len',
        'steinmetz': 'L rho len len',
        'platehole': 'L rho len len ang',
    },
}

OUTER = {
    'newt.bigQlm': {
        'sphere': 'L rho len len+c2 len+c2+cy len+cz',
        'annulus': 'L rho len+cz len len phic phih',
    },
    'newt.bigQlmNum': {
        'annulus': 'L rho len len len len phihN',
        'outer_cone': 'L rho len len len phihN',
        'trapezoid': 'L rho len len len len phihN',
    },
}

CLOUD_INNER = {'newt.pg2Multi': {'qmoments': 'L pts', 'imoments': 'L lmbd pts', 'qmoment': 'deg ord pts',
                                 'imoment': 'deg ord lmbd pts'}}
CLOUD_OUTER = {'newt.pg2Multi': {'Qmomentsb': 'L pts', 'Qmomentb': 'deg ord pts'}}
