chains!(
    chain_enc_1_0 chain_dec_1_0 AesBlock 16 0,
    chain_enc_1_1 chain_dec_1_1 AesBlock 16 1,
    chain_enc_1_2 chain_dec_1_2 AesBlock 16 2,
    chain_enc_1_3 chain_dec_1_3 AesBlock 16 3,
    chain_enc_1_4 chain_dec_1_4 AesBlock 16 4,
    chain_enc_1_5 chain_dec_1_5 AesBlock 16 5,
    chain_enc_1_6 chain_dec_1_6 AesBlock 16 6,
    chain_enc_1_7 chain_dec_1_7 AesBlock 16 7,
    chain_enc_1_8 chain_dec_1_8 AesBlock 16 8,
    chain_enc_1_9 chain_dec_1_9 AesBlock 16 9,
    chain_enc_1_10 chain_dec_1_10 AesBlock 16 10,
    chain_enc_1_11 chain_dec_1_11 AesBlock 16 11,
    chain_enc_1_12 chain_dec_1_12 AesBlock 16 12,
    chain_enc_1_13 chain_dec_1_13 AesBlock 16 13,
    chain_enc_1_14 chain_dec_1_14 AesBlock 16 14,
    chain_enc_1_15 chain_dec_1_15 AesBlock 16 15,
    chain_enc_1_16 chain_dec_1_16 AesBlock 16 16,
    chain_enc_1_17 chain_dec_1_17 AesBlock 16 17,
    chain_enc_1_18 chain_dec_1_18 AesBlock 16 18,
    chain_enc_1_19 chain_dec_1_19 AesBlock 16 19,
    chain_enc_1_20 chain_dec_1_20 AesBlock 16 20,
    chain_enc_1_21 chain_dec_1_21 AesBlock 16 21,
    chain_enc_1_22 chain_dec_1_22 AesBlock 16 22,
    chain_enc_1_23 chain_dec_1_23 AesBlock 16 23,
    chain_enc_1_24 chain_dec_1_24 AesBlock 16 24,
    chain_enc_1_25 chain_dec_1_25 AesBlock 16 25,
    chain_enc_1_26 chain_dec_1_26 AesBlock 16 26,
    chain_enc_1_27 chain_dec_1_27 AesBlock 16 27,
    chain_enc_1_28 chain_dec_1_28 AesBlock 16 28,
    chain_enc_1_29 chain_dec_1_29 AesBlock 16 29,
    chain_enc_1_30 chain_dec_1_30 AesBlock 16 30,
    chain_enc_1_31 chain_dec_1_31 AesBlock 16 31,
    chain_enc_1_32 chain_dec_1_32 AesBlock 16 32,
    chain_enc_1_33 chain_dec_1_33 AesBlock 16 33,
    chain_enc_1_34 chain_dec_1_34 AesBlock 16 34,
    chain_enc_1_35 chain_dec_1_35 AesBlock 16 35,
    chain_enc_1_36 chain_dec_1_36 AesBlock 16 36,
    chain_enc_1_37 chain_dec_1_37 AesBlock 16 37,
    chain_enc_1_38 chain_dec_1_38 AesBlock 16 38,
    chain_enc_1_39 chain_dec_1_39 AesBlock 16 39,
    chain_enc_1_40 chain_dec_1_40 AesBlock 16 40,
    chain_enc_1_41 chain_dec_1_41 AesBlock 16 41,
    chain_enc_1_42 chain_dec_1_42 AesBlock 16 42,
    chain_enc_1_43 chain_dec_1_43 AesBlock 16 43,
    chain_enc_1_44 chain_dec_1_44 AesBlock 16 44,
    chain_enc_1_45 chain_dec_1_45 AesBlock 16 45,
    chain_enc_1_46 chain_dec_1_46 AesBlock 16 46,
    chain_enc_1_47 chain_dec_1_47 AesBlock 16 47,
    chain_enc_1_48 chain_dec_1_48 AesBlock 16 48,
    chain_enc_1_49 chain_dec_1_49 AesBlock 16 49,
    chain_enc_1_50 chain_dec_1_50 AesBlock 16 50,
    chain_enc_1_51 chain_dec_1_51 AesBlock 16 51,
    chain_enc_1_52 chain_dec_1_52 AesBlock 16 52,
    chain_enc_1_53 chain_dec_1_53 AesBlock 16 53,
    chain_enc_1_54 chain_dec_1_54 AesBlock 16 54,
    chain_enc_1_55 chain_dec_1_55 AesBlock 16 55,
    chain_enc_1_56 chain_dec_1_56 AesBlock 16 56,
    chain_enc_1_57 chain_dec_1_57 AesBlock 16 57,
    chain_enc_1_58 chain_dec_1_58 AesBlock 16 58,
    chain_enc_1_59 chain_dec_1_59 AesBlock 16 59,
    chain_enc_1_60 chain_dec_1_60 AesBlock 16 60,
    chain_enc_1_61 chain_dec_1_61 AesBlock 16 61,
    chain_enc_1_62 chain_dec_1_62 AesBlock 16 62,
    chain_enc_1_63 chain_dec_1_63 AesBlock 16 63,
    chain_enc_1_64 chain_dec_1_64 AesBlock 16 64,
    chain_enc_1_65 chain_dec_1_65 AesBlock 16 65,
    chain_enc_1_66 chain_dec_1_66 AesBlock 16 66,
    chain_enc_1_127 chain_dec_1_127 AesBlock 16 127,
    chain_enc_1_128 chain_dec_1_128 AesBlock 16 128,
    chain_enc_1_129 chain_dec_1_129 AesBlock 16 129,
    chain_enc_1_255 chain_dec_1_255 AesBlock 16 255,
    chain_enc_1_256 chain_dec_1_256 AesBlock 16 256,
    chain_enc_1_257 chain_dec_1_257 AesBlock 16 257,
    chain_enc_1_258 chain_dec_1_258 AesBlock 16 258,
    chain_enc_1_511 chain_dec_1_511 AesBlock 16 511,
    chain_enc_1_512 chain_dec_1_512 AesBlock 16 512,
    chain_enc_1_513 chain_dec_1_513 AesBlock 16 513,
    chain_enc_1_1025 chain_dec_1_1025 AesBlock 16 1025,
    chain_enc_2_0 chain_dec_2_0 AesBlockX2 32 0,
    chain_enc_2_1 chain_dec_2_1 AesBlockX2 32 1,
    chain_enc_2_2 chain_dec_2_2 AesBlockX2 32 2,
    chain_enc_2_3 chain_dec_2_3 AesBlockX2 32 3,
    chain_enc_2_4 chain_dec_2_4 AesBlockX2 32 4,
    chain_enc_2_5 chain_dec_2_5 AesBlockX2 32 5,
    chain_enc_2_6 chain_dec_2_6 AesBlockX2 32 6,
    chain_enc_2_7 chain_dec_2_7 AesBlockX2 32 7,
    chain_enc_2_8 chain_dec_2_8 AesBlockX2 32 8,
    chain_enc_2_9 chain_dec_2_9 AesBlockX2 32 9,
    chain_enc_2_10 chain_dec_2_10 AesBlockX2 32 10,
    chain_enc_2_11 chain_dec_2_11 AesBlockX2 32 11,
    chain_enc_2_12 chain_dec_2_12 AesBlockX2 32 12,
    chain_enc_2_13 chain_dec_2_13 AesBlockX2 32 13,
    chain_enc_2_14 chain_dec_2_14 AesBlockX2 32 14,
    chain_enc_2_15 chain_dec_2_15 AesBlockX2 32 15,
    chain_enc_2_16 chain_dec_2_16 AesBlockX2 32 16,
    chain_enc_2_17 chain_dec_2_17 AesBlockX2 32 17,
    chain_enc_2_18 chain_dec_2_18 AesBlockX2 32 18,
    chain_enc_2_19 chain_dec_2_19 AesBlockX2 32 19,
    chain_enc_2_20 chain_dec_2_20 AesBlockX2 32 20,
    chain_enc_2_21 chain_dec_2_21 AesBlockX2 32 21,
    chain_enc_2_22 chain_dec_2_22 AesBlockX2 32 22,
    chain_enc_2_23 chain_dec_2_23 AesBlockX2 32 23,
    chain_enc_2_24 chain_dec_2_24 AesBlockX2 32 24,
    chain_enc_2_25 chain_dec_2_25 AesBlockX2 32 25,
    chain_enc_2_26 chain_dec_2_26 AesBlockX2 32 26,
    chain_enc_2_27 chain_dec_2_27 AesBlockX2 32 27,
    chain_enc_2_28 chain_dec_2_28 AesBlockX2 32 28,
    chain_enc_2_29 chain_dec_2_29 AesBlockX2 32 29,
    chain_enc_2_30 chain_dec_2_30 AesBlockX2 32 30,
    chain_enc_2_31 chain_dec_2_31 AesBlockX2 32 31,
    chain_enc_2_32 chain_dec_2_32 AesBlockX2 32 32,
    chain_enc_2_33 chain_dec_2_33 AesBlockX2 32 33,
    chain_enc_2_63 chain_dec_2_63 AesBlockX2 32 63,
    chain_enc_2_64 chain_dec_2_64 AesBlockX2 32 64,
    chain_enc_2_65 chain_dec_2_65 AesBlockX2 32 65,
    chain_enc_2_127 chain_dec_2_127 AesBlockX2 32 127,
    chain_enc_2_128 chain_dec_2_128 AesBlockX2 32 128,
    chain_enc_2_129 chain_dec_2_129 AesBlockX2 32 129,
    chain_enc_2_255 chain_dec_2_255 AesBlockX2 32 255,
    chain_enc_2_256 chain_dec_2_256 AesBlockX2 32 256,
    chain_enc_2_257 chain_dec_2_257 AesBlockX2 32 257,
    chain_enc_2_258 chain_dec_2_258 AesBlockX2 32 258,
    chain_enc_4_0 chain_dec_4_0 AesBlockX4 64 0,
    chain_enc_4_1 chain_dec_4_1 AesBlockX4 64 1,
    chain_enc_4_2 chain_dec_4_2 AesBlockX4 64 2,
    chain_enc_4_3 chain_dec_4_3 AesBlockX4 64 3,
    chain_enc_4_4 chain_dec_4_4 AesBlockX4 64 4,
    chain_enc_4_5 chain_dec_4_5 AesBlockX4 64 5,
    chain_enc_4_6 chain_dec_4_6 AesBlockX4 64 6,
    chain_enc_4_7 chain_dec_4_7 AesBlockX4 64 7,
    chain_enc_4_8 chain_dec_4_8 AesBlockX4 64 8,
    chain_enc_4_9 chain_dec_4_9 AesBlockX4 64 9,
    chain_enc_4_10 chain_dec_4_10 AesBlockX4 64 10,
    chain_enc_4_11 chain_dec_4_11 AesBlockX4 64 11,
    chain_enc_4_12 chain_dec_4_12 AesBlockX4 64 12,
    chain_enc_4_13 chain_dec_4_13 AesBlockX4 64 13,
    chain_enc_4_14 chain_dec_4_14 AesBlockX4 64 14,
    chain_enc_4_15 chain_dec_4_15 AesBlockX4 64 15,
    chain_enc_4_16 chain_dec_4_16 AesBlockX4 64 16,
    chain_enc_4_17 chain_dec_4_17 AesBlockX4 64 17,
    chain_enc_4_18 chain_dec_4_18 AesBlockX4 64 18,
    chain_enc_4_19 chain_dec_4_19 AesBlockX4 64 19,
    chain_enc_4_20 chain_dec_4_20 AesBlockX4 64 20,
    chain_enc_4_21 chain_dec_4_21 AesBlockX4 64 21,
    chain_enc_4_22 chain_dec_4_22 AesBlockX4 64 22,
    chain_enc_4_23 chain_dec_4_23 AesBlockX4 64 23,
    chain_enc_4_24 chain_dec_4_24 AesBlockX4 64 24,
    chain_enc_4_25 chain_dec_4_25 AesBlockX4 64 25,
    chain_enc_4_26 chain_dec_4_26 AesBlockX4 64 26,
    chain_enc_4_27 chain_dec_4_27 AesBlockX4 64 27,
    chain_enc_4_28 chain_dec_4_28 AesBlockX4 64 28,
    chain_enc_4_29 chain_dec_4_29 AesBlockX4 64 29,
    chain_enc_4_30 chain_dec_4_30 AesBlockX4 64 30,
    chain_enc_4_31 chain_dec_4_31 AesBlockX4 64 31,
    chain_enc_4_32 chain_dec_4_32 AesBlockX4 64 32,
    chain_enc_4_33 chain_dec_4_33 AesBlockX4 64 33,
    chain_enc_4_63 chain_dec_4_63 AesBlockX4 64 63,
    chain_enc_4_64 chain_dec_4_64 AesBlockX4 64 64,
    chain_enc_4_65 chain_dec_4_65 AesBlockX4 64 65,
    chain_enc_4_127 chain_dec_4_127 AesBlockX4 64 127,
    chain_enc_4_128 chain_dec_4_128 AesBlockX4 64 128,
    chain_enc_4_129 chain_dec_4_129 AesBlockX4 64 129,
    chain_enc_4_255 chain_dec_4_255 AesBlockX4 64 255,
    chain_enc_4_256 chain_dec_4_256 AesBlockX4 64 256,
    chain_enc_4_257 chain_dec_4_257 AesBlockX4 64 257,
    chain_enc_4_258 chain_dec_4_258 AesBlockX4 64 258,
);
