"""Write fixtures/nio_cf_145.json (by hand, once): NiO crystal-field Hamiltonian without field."""
import contextlib, io, json, sys
from collections import OrderedDict
from impurityModel.ed import finite, get_spectra_using_CF as cf
from lib import ref
nB=OrderedDict({1:0,2:10}); nV=OrderedDict({1:0,2:10})
with contextlib.redirect_stdout(io.StringIO()):
    op=cf.get_hamiltonian_operator_using_CF(nB,nV,[[7.5,0,9.9,0,6.6],[0,0,0],[8.9,0,6.8],[0,5,0,2.8]],[11.629,0.096],[{1:6,2:8},1.5],(0,0,0),'/repo/h0/h0_NiO_CF.json')
    basis=finite.get_basis(nB,nV,{1:0,2:1},{1:0,2:0},{1:0,2:1},{1:6,2:8})
print(len(op),len(basis))
json.dump({"n":26,"op":[[[list(e) for e in p],[complex(v).real,complex(v).imag]] for p,v in op.items()],"basis":[ref.dec(b,26) for b in basis]},open('/verif/fixtures/nio_cf_145.json','w'),separators=(',',':'))
