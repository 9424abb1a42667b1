CHECKS = {
    'C01': ('checks_unicode', 'c01'),
    'C02': ('checks_unicode', 'c02'),
    'C03': ('checks_unicode', 'c03'),
    'C04': ('checks_unicode', 'c04'),
    'C05': ('checks_unicode', 'c05'),
}
for _p in ('C06', 'C07', 'C08', 'C09', 'C24'):
    CHECKS[_p] = ('checks_numbers', _p.lower())
for _p in ('C10', 'C11', 'C12', 'C13', 'C14', 'C15'):
    CHECKS[_p] = ('checks_resource', _p.lower())
for _p in ('C16', 'C17', 'C18', 'C19'):
    CHECKS[_p] = ('checks_stream', _p.lower())
CHECKS['C20'] = ('checks_stdio', 'c20')
CHECKS['C21'] = ('checks_core', 'c21')
CHECKS['C23'] = ('checks_core', 'c23')
CHECKS['C22'] = ('checks_gui', 'c22')
