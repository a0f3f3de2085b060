#!/usr/bin/env python3
"""Writes sim/src/group_list.rs: the component groups the simulated clients use (fixed seed)."""
import random
R = random.Random(20240)
names = "A B C D E F G H I J K L M N O P Q R S T U W Ca Cb Cc Cd Ta Tb Tc Va Vb Vc".split()
F1 = "A B C D E F G H".split()
F2 = "I J K L M O P Q R S T".split()
SM = "A B C D F G H I L M O P Q R S Va Vb Vc".split()
out = []
def add(*t):
    if t not in out:
        out.append(t)
for n in F1 + F2 + ["N", "U", "W", "Ca", "Cc", "Ta", "Va"]:
    add(n)
for i, a in enumerate(F1):                      # pairs, most in both orders
    for b in F1[i + 1:]:
        if R.random() < .62:
            x = (a, b) if R.random() < .5 else (b, a)
            add(*x)
            if R.random() < .35:
                add(*x[::-1])
for _ in range(9):
    add(*R.sample(F2, 2))
def perms(pool, n, sets, per):
    for _ in range(sets):
        s = R.sample(pool, n)
        for k in range(per):
            t = s[:]
            if k:
                R.shuffle(t)
            add(*t)
perms(F1, 3, 5, 2)
perms(F2, 3, 3, 2)
perms(F1, 4, 3, 2)
perms(F2, 4, 1, 2)
perms(F1, 5, 2, 2)
perms(F1 + ["I", "M"], 6, 2, 1)
perms(F1, 7, 1, 2)
add(*F1[::-1])
perms(F1, 8, 1, 1)
W14 = "S R Q P O M L H G F D C B A".split()
for n in (9, 10, 11, 12, 13):
    perms(W14, n, 1, 2 if n in (9, 12) else 1)
add(*W14)
s = W14[:]; R.shuffle(s); add(*s)
s = "I J K T E Va Vb Vc A C B D G Q".split(); R.shuffle(s); add(*s)
# families with colliding identifiers, big and over-aligned values
add("Ca", "Cb"); add("Cd", "Cc"); add("Cb", "Va", "Ca"); add("Cc", "Cd", "Va"); add("Ca", "Cb", "Vb", "Va"); add("Vb", "Cd", "Va", "Cc")
add("Ta", "Tb", "Tc"); add("Tc", "Ta", "Tb"); add("Ta", "Tb"); add("Tc", "Tb", "Ta", "Va")
add("A", "N"); add("U", "B", "C"); add("W", "C"); add("W", "U", "N", "H"); add("T", "W"); add("E", "N", "T")
add("Va", "Vb"); add("Vc", "Va", "Vb")
# groups that repeat a type
add("A", "A"); add("C", "C"); add("A", "B", "A"); add("E", "C", "E"); add("H", "H", "H"); add("G", "C", "A", "B", "G")
add(*(W14[:13] + ["S"]))
add("G", "A", "B", "G"); add("B", "D", "A", "C", "B"); add("M", "O", "P", "Q", "R", "S", "M"); add("A", "H", "L", "I", "H"); add("D", "C", "E", "C", "G", "A"); add("F", "E", "D", "C", "B", "A", "F", "E")
add("Ca", "Cb", "Ca"); add("Va", "Vb", "Vc", "Va"); add("J", "K", "L", "M", "O", "P", "Q", "R", "S", "T", "I", "J")
# identifiers that agree in one of their bytes
add("C", "E"); add("R", "B"); add("B", "R"); add("D", "T"); add("Q", "W"); add("C", "N"); add("N", "C"); add("E", "U", "C"); add("R", "A", "B"); add("C", "R"); add("K", "C", "R")
# big groups with one type fewer
for big in (W14, F1, "I J K T E Va Vb Vc A C B D G Q".split(), "B C D E F A I M P Q O L".split()):
    for k in range(2):
        t = big[:]; t.remove(R.choice(t)); R.shuffle(t); add(*t)
        if len(t) > 9:
            u = sorted(t, key=lambda x: R.random())[:R.choice([7, 8, 9, 10])]; add(*u)
with open("/verif/sim/src/group_list.rs", "w") as f:
    f.write("// generated by tools/mkgroups.py\ngroups! {\n")
    for t in out:
        f.write("    " + (t[0] if len(t) == 1 else "(" + ", ".join(t) + ")") + ";\n")
    f.write("}\n")
print(len(out))
