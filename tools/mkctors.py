"""one-off: draft spec/ctors.json (constructor parameters in order) and spec/lengths.json from the sources"""
import re, json, glob
out, lens = {}, {}
for f in sorted(glob.glob('/repo/src/common/data_types/*.rs')):
    s = open(f).read().split('#[cfg(test)]')[0]
    s = re.sub(r'//[^\n]*', '', s)
    for m in re.finditer(r'impl (\w+) \{(.*?)\n\}', s, re.S):
        c = re.search(r'pub (?:const )?fn new\(([^)]*)\)', m.group(2))
        if c:
            ps = [p.strip() for p in c.group(1).split(',') if p.strip()]
            out[m.group(1)] = [[a.strip() for a in p.split(':', 1)] for p in ps]
    for m in re.finditer(r'impl SerializedLength for (\w+) \{\s*const LENGTH: usize = ([^;]*);', s, re.S):
        lens[m.group(1)] = m.group(2)
json.dump(out, open('/verif/spec/ctors.json', 'w'), indent=0)
print(len(out)); print(lens)
