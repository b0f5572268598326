REGISTRY = {
    'C01': ('generators', 'c01'),
    'C02': ('generators', 'c02'),
    'C03': ('generators', 'c03'),
    'C04': ('generators', 'c04'),
    'C05': ('layout', 'c05'),
    'C06': ('layout', 'c06'),
    'C08': ('generators', 'c08'),
}
REGISTRY['C14'] = ('operators', 'c14')
REGISTRY['C15'] = ('operators', 'c15')
REGISTRY['C11'] = ('forces', 'c11')
REGISTRY['C12'] = ('forces', 'c12')
REGISTRY['C13'] = ('forces', 'c13')
REGISTRY['C07'] = ('moments', 'c07')
REGISTRY['C10'] = ('purity', 'c10')
REGISTRY['C23'] = ('purity', 'c23')
REGISTRY['C22'] = ('exact', 'c22')
REGISTRY['C16'] = ('translate', 'c16')
REGISTRY['C24'] = ('turns', 'c24')
REGISTRY['C17'] = ('clouds', 'c17')
REGISTRY['C21'] = ('embed', 'c21')
REGISTRY['C18'] = ('scripts', 'c18')
REGISTRY['C19'] = ('cad', 'c19')
REGISTRY['C20'] = ('cad', 'c20')
