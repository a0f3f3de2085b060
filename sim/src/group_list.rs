// generated by tools/mkgroups.py
groups! {
    A;
    B;
    C;
    D;
    E;
    F;
    G;
    H;
    I;
    J;
    K;
    L;
    M;
    O;
    P;
    Q;
    R;
    S;
    T;
    N;
    U;
    W;
    Ca;
    Cc;
    Ta;
    Va;
    (C, A);
    (A, C);
    (A, H);
    (D, B);
    (G, B);
    (C, D);
    (E, C);
    (C, F);
    (F, C);
    (G, C);
    (E, D);
    (F, D);
    (H, D);
    (H, E);
    (E, H);
    (H, F);
    (M, K);
    (J, S);
    (M, Q);
    (R, S);
    (R, L);
    (Q, L);
    (S, O);
    (P, J);
    (F, E, D);
    (D, F, E);
    (E, G, H);
    (F, D, C);
    (D, C, F);
    (D, A, E);
    (E, D, A);
    (C, H, D);
    (D, C, H);
    (I, J, R);
    (S, R, P);
    (P, R, S);
    (S, O, P);
    (O, S, P);
    (C, E, G, A);
    (C, E, A, G);
    (D, C, F, B);
    (B, D, F, C);
    (B, G, A, H);
    (B, H, G, A);
    (L, K, Q, O);
    (O, Q, K, L);
    (G, F, C, A, B);
    (B, F, G, C, A);
    (G, D, A, F, B);
    (D, A, F, B, G);
    (C, F, M, A, H, B);
    (G, M, C, B, I, F);
    (H, E, B, A, C, D, G);
    (H, B, D, G, A, E, C);
    (H, G, F, E, D, C, B, A);
    (H, F, E, B, C, A, G, D);
    (O, Q, L, S, R, B, G, F, C);
    (L, G, C, Q, S, F, O, B, R);
    (O, G, B, R, D, S, Q, P, F, H);
    (C, G, D, M, O, S, A, L, Q, H, R);
    (A, O, M, D, C, F, G, H, R, S, B, L);
    (R, G, B, M, D, A, H, F, S, O, C, L);
    (P, S, F, C, M, Q, G, R, L, B, H, D, A);
    (S, R, Q, P, O, M, L, H, G, F, D, C, B, A);
    (D, G, P, C, A, R, O, H, M, Q, S, L, F, B);
    (B, E, C, Q, I, Va, Vc, T, J, Vb, A, K, G, D);
    (Ca, Cb);
    (Cd, Cc);
    (Cb, Va, Ca);
    (Cc, Cd, Va);
    (Ca, Cb, Vb, Va);
    (Vb, Cd, Va, Cc);
    (Ta, Tb, Tc);
    (Tc, Ta, Tb);
    (Ta, Tb);
    (Tc, Tb, Ta, Va);
    (A, N);
    (U, B, C);
    (W, C);
    (W, U, N, H);
    (T, W);
    (E, N, T);
    (Va, Vb);
    (Vc, Va, Vb);
    (A, A);
    (C, C);
    (A, B, A);
    (E, C, E);
    (H, H, H);
    (G, C, A, B, G);
    (S, R, Q, P, O, M, L, H, G, F, D, C, B, S);
    (G, A, B, G);
    (B, D, A, C, B);
    (M, O, P, Q, R, S, M);
    (A, H, L, I, H);
    (D, C, E, C, G, A);
    (F, E, D, C, B, A, F, E);
    (Ca, Cb, Ca);
    (Va, Vb, Vc, Va);
    (J, K, L, M, O, P, Q, R, S, T, I, J);
    (C, E);
    (R, B);
    (B, R);
    (D, T);
    (Q, W);
    (C, N);
    (N, C);
    (E, U, C);
    (R, A, B);
    (C, R);
    (K, C, R);
    (A, R, H, F, L, C, P, S, B, G, D, M, O);
    (S, B, M, L, H, O, R);
    (H, M, S, F, C, D, Q, B, A, G, L, R, P);
    (F, B, C, G, H, M, R, S, Q);
    (C, D, H, G, A, E, B);
    (B, H, E, G, A, C, D);
    (T, C, Vb, D, E, K, G, A, I, Vc, Va, J, B);
    (T, C, D, Va, B, I, K);
    (E, Q, T, Vb, G, Vc, B, K, A, I, J, C, Va);
    (Vc, E, I, Vb, A, K, T, J, B);
    (E, L, I, F, A, D, C, M, B, Q, O);
    (I, Q, D, M, A, E, F, B, L, O);
    (O, Q, C, L, F, M, P, D, B, E, A);
    (Q, O, C, P, A, M, L, B, F);
}
