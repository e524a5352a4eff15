"""native harnesses: bounded stand-ins and replay of failed obligations on the compiled code"""
C='$REPO/src/cachelot/'; S='$REPO/src/server/'
def H(n,*srcs): return (['$VERIF/native/%s.cpp'%n]+list(srcs),[])
BASE=(C+'common.cpp',C+'item.cpp')
HARNESS={
 'strconv':H('strconv',C+'common.cpp'),
 'slice':H('slice',*BASE),
 'hash':H('hash',*BASE,C+'c_api.cpp',S+'settings.cpp',C+'stats.cpp'),
 'item':H('item',*BASE,C+'stats.cpp'),
 'iobuf':H('iobuf',*BASE),
 'table':H('table'),
 'alloc':H('alloc',C+'stats.cpp',C+'common.cpp'),
 'cache':H('cache',*BASE,C+'stats.cpp'),
 'proto':H('proto',*BASE,C+'stats.cpp',S+'settings.cpp',S+'memcached/memcached.cpp',S+'memcached/proto_ascii.cpp',S+'memcached/proto_binary.cpp'),
 'capi':H('capi',*BASE,C+'stats.cpp'),
 'config':H('config',*BASE,C+'stats.cpp'),
}
BLACKBOX={'alloc'}      # may be rebuilt with -DBLACKBOX when the internals it looks at were renamed
NATIVE={
 'C01':[('table',('C01',)),('cache',('C01','C02'))],
 'C02':[('cache',('C02',))],
 'C03':[('item',('C03',)),('cache',('C03',))],
 'C04':[('alloc',('C04',)),('cache',('C04',))],
 'C05':[('alloc',('C05',))],
 'C06':[('alloc',('C06',)),('cache',('C06',))],
 'C07':[('alloc',('C07',))],
 'C08':[('item',('C08',)),('cache',('C08',))],
 'C09':[('cache',('C09',)),('proto',('C09',))],
 'C10':[('cache',('C10',))],
 'C11':[('cache',('C11',))],
 'C12':[('strconv',())],
 'C13':[('iobuf',())],
 'C14':[('proto',('C14',))],
 'C15':[('proto',('C15',))],
 'C16':[('proto',('C16',))],
 'C17':[('proto',('C17',))],
 'C18':[('capi',())],
 'C19':[('cache',('C19',)),('alloc',('C19',)),('proto',('C19',))],
 'C20':[('config',())],
 'C21':[('hash',()),('proto',('C21',))],
 'C22':[('slice',())],
}
B='bounded stand-in only: no contract of this property is discharged yet'
LEVEL={k:('exploration',B) for k in NATIVE}
LEVEL['C12']=('proof','every obligation of the formatting and parsing functions discharged for all inputs of every width; clang front end, llvc and the SMT solvers are trusted')
