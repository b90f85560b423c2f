#!/usr/bin/env python3
"""Writes known-findings.jsonl: the findings below and a line per repaired defect (fix: commits of /repo)."""
import subprocess, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIND = []
def finding(id, prop, match, what): FIND.append({"kind": "finding", "id": id, "property": prop, "match": match, "what": what})
# --- findings (recorded, not repaired)
# --- which property each repair belongs to, by a fragment of the commit's subject
PROP = [("close the file a debug", "C31"), ("keep the kind of the parser", "C31"), ("don't report the error of a call", "C31"), ("don't assert that a program", "C31"), ("report only once", "C31"), ("compiling without enough", "C30"), ("files.openFile left", "C30"), ("the bytes of a buffer leaked", "C30"), ("the arguments of a call leaked", "C30"), ("profiling a run without", "C30"), ("selecting a value without", "C30"), ("variables were reported as undefined", "C30"),
 ("POP's operand", "C14"), ("the assembler didn't round", "C14"),
 ("list walkexts", "C02"), ("map growth", "C07"), ("hashing an object with no hash", "C07"), ("signed overflow when summing the hashes", "C07"), ("0.0 and -0.0", "C07"),
 ("string equality", "C09"), ("printing a string", "C09"), ("indices of lists", "C08"), ("slicing a buffer", "C10"), ("buffer.new accepted", "C10"), ("the buffer module", "C10"), ("the string module", "C09"),
 ("string.trim", "C09"), ("string.chr", "C09"), ("integers returned by builtins", "C20"), ("random.generate", "C25"), ("math.pow", "C28"), ("files.openFile", "C17"), ("files.read and", "C17"), ("math.floor", "C28"),
 ("integer overflow", "C03"), ("the modulo", "C03"), ("istypeof of a list", "C06"), ("errors occurred while matching", "C06"), ("reporting a wrong argument type", "C11"), ("returning more than 8", "C05"),
 ("unspecified errors", "C11"), ("sources created", "C12"), ("reporting a semantic", "C12"), ("the assembler went on", "C12"), ("a map literal truncated", "C12"), ("deeply nested sources", "C12"),
 ("the message about a wrong", "C11"), ("stack traces reported", "C11"), ("part of the stack trace", "C11"), ("a second compilation", "C11"), ("the argument array", "C16"), ("running out of heap", "C16"),
 ("the heap didn't report", "C30"), ("the heap's bound check", "C15"), ("hashing, copying", "C01"), ("toString failed", "C20"), ("input() never", "C26"), ("the assembler accepted", "C14"), ("bytecode with huge", "C01"),
 ("Executable_Equiv", "C13"), ("the error about misplaced", "C12"), ("AST diagrams of big", "C24"), ("AST diagrams only", "C24"), ("AST diagrams handled", "C24"), ("net.send and", "C18"), ("sending to a socket", "C18"),
 ("byte sequences", "C09"), ("utf8_next", "C01"), ("a native function object", "C02"), ("CALL and CHECKTYPE", "C01"), ("a misplaced token", "C11"), ("paths containing", "C17"), ("reading from a file", "C17"), ("paths were made", "C27"), ("AST diagrams showed", "C24"), ("collecting garbage wrote", "C21"), ("printing, hashing, copying", "C21"), ("files of more than", "C22"), ("heap sizes which", "C29"), ("failing to write", "C29"), ("the file given with -o", "C29"), ("a signal received while ending", "C19"), ("a program waiting for input", "C19"), ("net.bind", "C18"), ("network calls took", "C18"), ("parseArgs marks", "C33"), ("terminate the folder", "C33"), ("a key with a null byte", "C20"), ("the streams used to format", "C30"), ("sizes and usage of the heap", "C15"), ("strings and buffers whose size", "C15")]
EXTRA = {}
def main():
    lines = [json.dumps(f) for f in FIND]
    for l in reversed(subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()):
        h, s = l.split(" ", 1)
        if not s.startswith("fix:"): continue
        s = s[5:].strip()
        p = [q for k, q in PROP if s.startswith(k)]
        m = re.match(r"\[(C\d\d)\] ", s)
        assert p or m, s
        lines.append(f"fixed: property={p[0] if p else m.group(1)} {h} {s}")
    open(ROOT + "/known-findings.jsonl", "w").write("\n".join(lines) + "\n")
    print(len(FIND), "findings", len(lines) - len(FIND), "fixed")
main()
