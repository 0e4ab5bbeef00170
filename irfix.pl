# rustc 1.82 prints LLVM 19 IR; drop the attributes and flags LLVM 18 does not know (they only carry optimisation hints)
while(<>){ s/\btrunc (?:nuw |nsw )+/trunc /; s/ range\(i\d+ -?\d+, -?\d+\)//g; s/\bgetelementptr (inbounds )?((nuw|nusw) )+/"getelementptr ".($1||"")/ge; s/ initializes\(\([^)]*\)(, \([^)]*\))*\)//g; s/\bicmp samesign/icmp/; s/\buitofp nneg/uitofp/; s/<(\d+) x (\w+)> splat \((\S+) ([^)\s]+)\)/"<$1 x $2> <".join(", ",("$3 $4") x $1).">"/ge; print }
