import json,sys,os
sys.path.insert(0,'/verif/check')
import jobs as J
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
how={
'B01':'pushes symbolic leaves into the storage-backed tree; root compared with a direct recursion over RFC 6962',
'B02':'proof sets of every index compared, element by element, with the audit path of the recursion; the root folded from the proof compared with the tree root',
'B03':'an unconstrained 64-bit index; asserts an error iff index >= leaves count, never a panic',
'B04':'loads at every earlier size k, pushes other leaves; root, proofs and stored nodes compared with a fresh tree',
'B05':'after every push all earlier records unchanged, the new ones exactly the complete subtrees (and the loadable peaks)',
'B06':'one symbolic presence bit per record; load, root, prove either give the right answer or a load error',
'B07':'a symbolic storage operation fails; the tree must answer as before the push, and the repeated push as if nothing had happened; also fixed big sizes on virtual storage',
'B08':'same pushes and proof requests on both trees, all results compared',
'B09':'two symbolic leaf lists; roots equal implies lists equal (under the ideal hash)',
'B10':'virtual storage answers any position of a tree of up to 2^62-1 leaves with a term that names the position; load, root, prove, push near power-of-two and random sizes are compared with the recursion on positions',
'P01':'one unconstrained 64-bit in-order index: height, index round trip, parent, sibling, uncle, children, orientation, in 128-bit arithmetic',
'P02':'PathInstruction / path of a leaf for counts and indices in symbolic windows (and unconstrained index at small counts), against the recursion on [lo, hi)',
'P03':'path iterator from any node height to any leaf, each step the right child and sibling',
'E01':'absent records and failing operations of all three trees: the error variant and the key or storage error carried in it',
'S01':'any operation sequence over symbolic keys; root compared with the canonical tree of the map',
'S02':'overwrite, repeat, empty data, delete-after-insert, over any prepared state',
'S03':'deleting an absent key: root, number of records and answers unchanged',
'S04':'load after any history, then the same further operations on both',
'S05':'every node of the current map is stored under its hash with its primitive, after any history',
'S06':'keys equal to hashes of nodes, data or the empty string in the same tree (by construction of the symbolic input)',
'S07':'any record absent or with a bad prefix byte: an error or the right answer, never a panic or wrong root',
'S08':'a symbolic storage operation fails (then possibly a second one): root unchanged, all nodes of the current map still stored, the retried operation right',
'S09':'same operations on in-memory and storage-backed tree',
'S10':'two symbolic maps; roots equal implies maps equal',
'M01':'symbolic fees and data; root hash and fee of the recursion with fee-and-digest pre-images',
'M02':'root fee = sum of the pushed fees, every subtree likewise',
'M03':'each node of the recursion stored under its digest with its fee, children, height',
'M04':'as B07 for the sum tree',
'M05':'two symbolic lists; root hash and fee equal implies lists equal',
'K01':'any history of insert, remove, get, contains over symbolic keys through both interfaces, compared with a list of pairs',
'T01':'the helper verifier: accepts the honest proof; a symbolic proof of that length accepted implies it is the honest one',
'T02':'the reference tree gives the same root and proofs as the binary tree',
}
o=[]
w=o.append
w(open('/verif/tools/design_head.md').read())
w('## Properties and bounds\n\nEvery property is claimed; `not_applicable` is empty. Bounds as each run states them in its evidence file.\n')
w('| id | what the check does | bounds, quick | bounds, thorough |\n|---|---|---|---|')
for p in P:
    i=p['id']
    w('| %s | %s | %s | %s |'%(i,how[i],J.jobs(i,'quick',1)[1].replace('|','/'),J.jobs(i,'thorough',1)[1].replace('|','/')))
w(open('/verif/tools/design_mid.md').read())
w('| planted change | property | what it needs |\n|---|---|---|')
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    w('| `%s` | %s | %s |'%(d,m['property'],m['needs'].replace('|','/')))
w(open('/verif/tools/design_tail.md').read())
open('/verif/DESIGN.md','w').write('\n'.join(o).rstrip()+'\n')
