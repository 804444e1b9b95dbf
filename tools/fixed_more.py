MAP.update(dict(l.split() for l in '''
9d9ec1b C24
2509a41 C24
e13ab3a C27
476d5a3 C28
251d0e8 C25
ca5eee2 C25
fc71d05 C25
956b1e8 C10
961cbe7 C27
d01037c C08
c0c15ff C09
7abfdd1 C10
fc4339a C10
311d22e C10
ed95482 C10
1a9fb7d C10
72fe2e9 C29
e293197 C20
6888853 C16
1ebac86 C22
3d195af C18
99f5f0d C15
390fc95 C28
7e05fc5 C19
f01b0c7 C19
20444fe C19
d64e2ab C11
ee9915b C09
65415d0 C16
d2d70e2 C16
b3f4cb3 C13
290b9f8 C21
ece3b65 C21
ddfbea9 C13
beb37cc C29
e2fe774 C12
47f1a5d C26
8375ef7 C28
2630bba C28
deb7d75 C28
0d69e57 C22
535325d C22
5bb79cc C22
0f1a40d C27
f1a3c66 C27
be7f895 C23
47f4da1 C23
6453e44 C30
752a919 C30
44d55ea C30
57505ab C30
3f96897 C30
caafc89 C30
3b797d3 C30
d1e9a7b C30
21ac9af C30
0e9fec9 C10
461941e C10
453d525 C30
fcddbd8 C10
75cc605 C30
00dd226 C30
7b5dfe9 C30
c67d6e5 C30
650c0c9 C30
d76eba7 C30
6125ea3 C30
04fed9a C30
c4be1e9 C30
8bb3cc0 C30
700578f C30
ab131a6 C30
ab58850 C27
78b7f8b C31
4474ac3 C31
0ba63f8 C31
9ae6573 C31
546748a C31
25d6593 C31
a9afeb4 C31
df2025a C31
da654c1 C31
1c1bfda C31
705b62b C31
93d4f50 C32
62126ca C32
24e6a0e C32
c36d976 C32
a077d15 C33
41d8618 C33
07ebae2 C10
c4e30b3 C22
32f90cc C10
e717655 C30
c6d2dd6 C30
51a8a1c C34
fa44f3b C14
6ffe7a1 C22
3fe203b C26
5e1a814 C27
b53af9f C19
32a99df C28
c81b85f C28
2e5c055 C28
8694419 C28
2905e1e C12
c6d6704 C30
'''.strip().splitlines()))
