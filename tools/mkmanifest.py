import json
SEM="path-sensitive abstract interpretation of the SSA form against a keyword specification"
claims={c:(SEM,"all paths through Compile and Validate for a symbolic schema and document; single keywords unbounded, combinations of two or more on small shapes; library calls are modelled, undecided obligations are listed in the evidence") for c in ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C12","C13","C14","C18","C19"]}
claims["C16"]=("path-sensitive abstract interpretation of AddSchema/AddSchemas/Compile over every loader configuration","all paths for symbolic schemas; the nested meta-schema compilation and validation are treated as atomic steps")
claims["C17"]=("typestate analysis of readers, files and response bodies over abstract interpretation of the SSA form","all paths through every loader; I/O results are arbitrary")
claims["C20"]=("abstract interpretation of the draft table and structural comparison of the embedded meta-schema literals","complete: every lookup for a symbolic URL; the embedded texts are compared as JSON values")
claims["C11"]=("lockset and effect analysis over path-sensitive abstract interpretation of the SSA form","every function that touches package state changed after initialisation; writes during validation for every single keyword")
claims["C19"]=("effect analysis over path-sensitive abstract interpretation of the SSA form","every write on every path of Validate for the schemas analysed; accessors on symbolic receivers; state written under a lock is exempt")
claims["C15"]=("path-sensitive abstract interpretation of the SSA form on reference skeletons with symbolic leaves","given nestings of identifiers and references (every place a subschema can be, with known and with arbitrary identifier and reference strings) and symbolic leaf schemas; URL resolution itself is the library's")
na={
"C21":"termination depends on the ranking of document depth against the cycle structure of the schema's references, a runtime quantity; the current code does loop on {\"$ref\":\"#\"}, and no static argument here separates productive from unproductive cycles",
"C22":"how close an alternative came is a numeric score accumulated over an unbounded recursive validation; no static argument in reach bounds it",
}
m={"version":1,"setup_cmd":"bash run.sh","checks":[],"not_applicable":[]}
import os
for l in open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl')):
    i=json.loads(l)['id']
    if i in claims:
        t,n=claims[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash run.sh {i}","thorough_cmd":f"bash run.sh {i} thorough","technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":na[i]})
json.dump(m,open(os.path.join(os.path.dirname(__file__),'..','MANIFEST.json'),'w'),indent=1)
