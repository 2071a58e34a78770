/* generated by tools/gen_c25.py */
#ifndef CLASSIFY
#define CLASSIFY -1
#endif
#if CLASSIFY == -1
static struct type t0 = { .type = TY_SIMPLE, .simple = ST_INT };
static struct type t1 = { .type = TY_SIMPLE, .simple = ST_DOUBLE };
static struct type t2 = { .type = TY_SIMPLE, .simple = ST_FLOAT };
static struct type t3 = { .type = TY_SIMPLE, .simple = ST_CHAR };
static struct type t4 = { .type = TY_POINTER, .n = 1, .children = { &t3 } };
static struct type t5 = { .type = TY_SIMPLE, .simple = ST_LONG };
static struct field t6f[] = { { .type = &t5, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 8 } };
static struct struct_data t6d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t6f, .alignment = 8, .size = 16 };
static struct type t6 = { .type = TY_STRUCT, .struct_data = &t6d };
static struct field t7f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t7d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t7f, .alignment = 8, .size = 16 };
static struct type t7 = { .type = TY_STRUCT, .struct_data = &t7d };
static struct field t8f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 8 } };
static struct struct_data t8d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t8f, .alignment = 8, .size = 16 };
static struct type t8 = { .type = TY_STRUCT, .struct_data = &t8d };
static struct field t9f[] = { { .type = &t5, .bitfield = -1, .offset = 0 }, { .type = &t4, .bitfield = -1, .offset = 8 } };
static struct struct_data t9d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t9f, .alignment = 8, .size = 16 };
static struct type t9 = { .type = TY_STRUCT, .struct_data = &t9d };
static struct field t10f[] = { { .type = &t5, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 }, { .type = &t3, .bitfield = -1, .offset = 16 } };
static struct struct_data t10d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t10f, .alignment = 8, .size = 24 };
static struct type t10 = { .type = TY_STRUCT, .struct_data = &t10d };
static struct field t11f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t11d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t11f, .alignment = 4, .size = 12 };
static struct type t11 = { .type = TY_STRUCT, .struct_data = &t11d };
static struct type t12 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t3 } };
static struct field t13f[] = { { .type = &t12, .bitfield = -1, .offset = 0 } };
static struct struct_data t13d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t13f, .alignment = 1, .size = 3 };
static struct type t13 = { .type = TY_STRUCT, .struct_data = &t13d };
static struct field t14f[] = { { .type = &t2, .bitfield = -1, .offset = 0 }, { .type = &t2, .bitfield = -1, .offset = 4 }, { .type = &t2, .bitfield = -1, .offset = 8 } };
static struct struct_data t14d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t14f, .alignment = 4, .size = 12 };
static struct type t14 = { .type = TY_STRUCT, .struct_data = &t14d };
static struct field t15f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 8 }, { .type = &t1, .bitfield = -1, .offset = 16 } };
static struct struct_data t15d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t15f, .alignment = 8, .size = 24 };
static struct type t15 = { .type = TY_STRUCT, .struct_data = &t15d };
static struct type t16 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t3 } };
static struct field t17f[] = { { .type = &t16, .bitfield = -1, .offset = 0 } };
static struct struct_data t17d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t17f, .alignment = 1, .size = 5 };
static struct type t17 = { .type = TY_STRUCT, .struct_data = &t17d };
static struct type t18 = { .type = TY_SIMPLE, .simple = ST_USHORT };
static struct field t19f[] = { { .type = &t2, .bitfield = -1, .offset = 0 }, { .type = &t18, .bitfield = -1, .offset = 4 } };
static struct struct_data t19d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t19f, .alignment = 4, .size = 8 };
static struct type t19 = { .type = TY_STRUCT, .struct_data = &t19d };
static struct field t20f[] = { { .type = &t2, .bitfield = -1, .offset = 0 }, { .type = &t19, .bitfield = -1, .offset = 4 } };
static struct struct_data t20d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t20f, .alignment = 4, .size = 12 };
static struct type t20 = { .type = TY_STRUCT, .struct_data = &t20d };
static const struct row rows[] = {
{ &t0, 4, 1, { P_GP } },
{ &t1, 8, 1, { P_SSE } },
{ &t2, 4, 1, { P_SSE } },
{ &t4, 8, 1, { P_GP } },
{ &t6, 16, 2, { P_GP, P_SSE } },
{ &t7, 16, 2, { P_SSE, P_GP } },
{ &t8, 16, 2, { P_SSE, P_SSE } },
{ &t9, 16, 2, { P_GP, P_GP } },
{ &t10, 24, 1, { P_MEM } },
{ &t11, 12, 2, { P_GP, P_GP } },
{ &t13, 3, 1, { P_GP } },
{ &t14, 12, 2, { P_SSE, P_SSE } },
{ &t15, 24, 1, { P_MEM } },
{ &t3, 1, 1, { P_GP } },
{ &t17, 5, 1, { P_GP } },
{ &t20, 12, 2, { P_SSE, P_GP } }
};
#elif CLASSIFY == 0
static struct type t0 = { .type = TY_SIMPLE, .simple = ST_CHAR };
static struct field t1f[] = { { .type = &t0, .bitfield = -1, .offset = 0 } };
static struct struct_data t1d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t1f, .alignment = 1, .size = 1 };
static struct type t1 = { .type = TY_STRUCT, .struct_data = &t1d };
static struct type t2 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t0 } };
static struct field t3f[] = { { .type = &t2, .bitfield = -1, .offset = 0 } };
static struct struct_data t3d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t3f, .alignment = 1, .size = 1 };
static struct type t3 = { .type = TY_STRUCT, .struct_data = &t3d };
static struct type t4 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t0 } };
static struct field t5f[] = { { .type = &t4, .bitfield = -1, .offset = 0 } };
static struct struct_data t5d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t5f, .alignment = 1, .size = 2 };
static struct type t5 = { .type = TY_STRUCT, .struct_data = &t5d };
static struct type t6 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t0 } };
static struct field t7f[] = { { .type = &t6, .bitfield = -1, .offset = 0 } };
static struct struct_data t7d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t7f, .alignment = 1, .size = 3 };
static struct type t7 = { .type = TY_STRUCT, .struct_data = &t7d };
static struct type t8 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t0 } };
static struct field t9f[] = { { .type = &t8, .bitfield = -1, .offset = 0 } };
static struct struct_data t9d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t9f, .alignment = 1, .size = 4 };
static struct type t9 = { .type = TY_STRUCT, .struct_data = &t9d };
static struct type t10 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t0 } };
static struct field t11f[] = { { .type = &t10, .bitfield = -1, .offset = 0 } };
static struct struct_data t11d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t11f, .alignment = 1, .size = 5 };
static struct type t11 = { .type = TY_STRUCT, .struct_data = &t11d };
static struct type t12 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t0 } };
static struct field t13f[] = { { .type = &t12, .bitfield = -1, .offset = 0 } };
static struct struct_data t13d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t13f, .alignment = 1, .size = 7 };
static struct type t13 = { .type = TY_STRUCT, .struct_data = &t13d };
static struct type t14 = { .type = TY_ARRAY, .array.length = 8, .n = 1, .children = { &t0 } };
static struct field t15f[] = { { .type = &t14, .bitfield = -1, .offset = 0 } };
static struct struct_data t15d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t15f, .alignment = 1, .size = 8 };
static struct type t15 = { .type = TY_STRUCT, .struct_data = &t15d };
static struct type t16 = { .type = TY_ARRAY, .array.length = 9, .n = 1, .children = { &t0 } };
static struct field t17f[] = { { .type = &t16, .bitfield = -1, .offset = 0 } };
static struct struct_data t17d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t17f, .alignment = 1, .size = 9 };
static struct type t17 = { .type = TY_STRUCT, .struct_data = &t17d };
static struct type t18 = { .type = TY_ARRAY, .array.length = 13, .n = 1, .children = { &t0 } };
static struct field t19f[] = { { .type = &t18, .bitfield = -1, .offset = 0 } };
static struct struct_data t19d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t19f, .alignment = 1, .size = 13 };
static struct type t19 = { .type = TY_STRUCT, .struct_data = &t19d };
static struct type t20 = { .type = TY_ARRAY, .array.length = 16, .n = 1, .children = { &t0 } };
static struct field t21f[] = { { .type = &t20, .bitfield = -1, .offset = 0 } };
static struct struct_data t21d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t21f, .alignment = 1, .size = 16 };
static struct type t21 = { .type = TY_STRUCT, .struct_data = &t21d };
static struct type t22 = { .type = TY_ARRAY, .array.length = 17, .n = 1, .children = { &t0 } };
static struct field t23f[] = { { .type = &t22, .bitfield = -1, .offset = 0 } };
static struct struct_data t23d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t23f, .alignment = 1, .size = 17 };
static struct type t23 = { .type = TY_STRUCT, .struct_data = &t23d };
static struct field t24f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 1 } };
static struct struct_data t24d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t24f, .alignment = 1, .size = 2 };
static struct type t24 = { .type = TY_STRUCT, .struct_data = &t24d };
static struct field t25f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t2, .bitfield = -1, .offset = 0 } };
static struct struct_data t25d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t25f, .alignment = 1, .size = 1 };
static struct type t25 = { .type = TY_STRUCT, .struct_data = &t25d };
static struct field t26f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 2 } };
static struct struct_data t26d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t26f, .alignment = 1, .size = 3 };
static struct type t26 = { .type = TY_STRUCT, .struct_data = &t26d };
static struct field t27f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 1 } };
static struct struct_data t27d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t27f, .alignment = 1, .size = 3 };
static struct type t27 = { .type = TY_STRUCT, .struct_data = &t27d };
static struct type t28 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t24 } };
static struct field t29f[] = { { .type = &t28, .bitfield = -1, .offset = 0 } };
static struct struct_data t29d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t29f, .alignment = 1, .size = 4 };
static struct type t29 = { .type = TY_STRUCT, .struct_data = &t29d };
static struct field t30f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 1 } };
static struct struct_data t30d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t30f, .alignment = 1, .size = 3 };
static struct type t30 = { .type = TY_STRUCT, .struct_data = &t30d };
static struct field t31f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 1 }, { .type = &t0, .bitfield = -1, .offset = 2 } };
static struct struct_data t31d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t31f, .alignment = 1, .size = 3 };
static struct type t31 = { .type = TY_STRUCT, .struct_data = &t31d };
static struct type t32 = { .type = TY_SIMPLE, .simple = ST_INT };
static struct field t33f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 1 }, { .type = &t32, .bitfield = -1, .offset = 4 } };
static struct struct_data t33d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t33f, .alignment = 4, .size = 8 };
static struct type t33 = { .type = TY_STRUCT, .struct_data = &t33d };
static struct type t34 = { .type = TY_SIMPLE, .simple = ST_LONG };
static struct field t35f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 1 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t35d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t35f, .alignment = 8, .size = 16 };
static struct type t35 = { .type = TY_STRUCT, .struct_data = &t35d };
static struct type t36 = { .type = TY_SIMPLE, .simple = ST_FLOAT };
static struct field t37f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 1 }, { .type = &t36, .bitfield = -1, .offset = 4 } };
static struct struct_data t37d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t37f, .alignment = 4, .size = 8 };
static struct type t37 = { .type = TY_STRUCT, .struct_data = &t37d };
static struct type t38 = { .type = TY_SIMPLE, .simple = ST_DOUBLE };
static struct field t39f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 1 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t39d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t39f, .alignment = 8, .size = 16 };
static struct type t39 = { .type = TY_STRUCT, .struct_data = &t39d };
static struct type t40 = { .type = TY_POINTER, .n = 1, .children = { &t0 } };
static struct field t41f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 1 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t41d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t41f, .alignment = 8, .size = 16 };
static struct type t41 = { .type = TY_STRUCT, .struct_data = &t41d };
static struct field t42f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t32, .bitfield = -1, .offset = 4 } };
static struct struct_data t42d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t42f, .alignment = 4, .size = 8 };
static struct type t42 = { .type = TY_STRUCT, .struct_data = &t42d };
static struct type t43 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t32 } };
static struct field t44f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t43, .bitfield = -1, .offset = 0 } };
static struct struct_data t44d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t44f, .alignment = 4, .size = 12 };
static struct type t44 = { .type = TY_STRUCT, .struct_data = &t44d };
static struct field t45f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t32, .bitfield = -1, .offset = 4 } };
static struct struct_data t45d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t45f, .alignment = 4, .size = 8 };
static struct type t45 = { .type = TY_STRUCT, .struct_data = &t45d };
static struct field t46f[] = { { .type = &t32, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 4 } };
static struct struct_data t46d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t46f, .alignment = 4, .size = 12 };
static struct type t46 = { .type = TY_STRUCT, .struct_data = &t46d };
static struct type t47 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t42 } };
static struct field t48f[] = { { .type = &t47, .bitfield = -1, .offset = 0 } };
static struct struct_data t48d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t48f, .alignment = 4, .size = 16 };
static struct type t48 = { .type = TY_STRUCT, .struct_data = &t48d };
static struct field t49f[] = { { .type = &t32, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t49d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t49f, .alignment = 4, .size = 8 };
static struct type t49 = { .type = TY_STRUCT, .struct_data = &t49d };
static struct field t50f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t32, .bitfield = -1, .offset = 4 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t50d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t50f, .alignment = 4, .size = 12 };
static struct type t50 = { .type = TY_STRUCT, .struct_data = &t50d };
static struct field t51f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t32, .bitfield = -1, .offset = 4 }, { .type = &t32, .bitfield = -1, .offset = 8 } };
static struct struct_data t51d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t51f, .alignment = 4, .size = 12 };
static struct type t51 = { .type = TY_STRUCT, .struct_data = &t51d };
static struct field t52f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t32, .bitfield = -1, .offset = 4 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t52d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t52f, .alignment = 8, .size = 16 };
static struct type t52 = { .type = TY_STRUCT, .struct_data = &t52d };
static struct field t53f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t32, .bitfield = -1, .offset = 4 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t53d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t53f, .alignment = 4, .size = 12 };
static struct type t53 = { .type = TY_STRUCT, .struct_data = &t53d };
static struct field t54f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t32, .bitfield = -1, .offset = 4 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t54d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t54f, .alignment = 8, .size = 16 };
static struct type t54 = { .type = TY_STRUCT, .struct_data = &t54d };
static struct field t55f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t32, .bitfield = -1, .offset = 4 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t55d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t55f, .alignment = 8, .size = 16 };
static struct type t55 = { .type = TY_STRUCT, .struct_data = &t55d };
static struct field t56f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t56d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t56f, .alignment = 8, .size = 16 };
static struct type t56 = { .type = TY_STRUCT, .struct_data = &t56d };
static struct type t57 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t34 } };
static struct field t58f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t57, .bitfield = -1, .offset = 0 } };
static struct struct_data t58d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t58f, .alignment = 8, .size = 32 };
static struct type t58 = { .type = TY_STRUCT, .struct_data = &t58d };
static struct field t59f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t59d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t59f, .alignment = 8, .size = 16 };
static struct type t59 = { .type = TY_STRUCT, .struct_data = &t59d };
static struct field t60f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t56, .bitfield = -1, .offset = 8 } };
static struct struct_data t60d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t60f, .alignment = 8, .size = 24 };
static struct type t60 = { .type = TY_STRUCT, .struct_data = &t60d };
static struct type t61 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t56 } };
static struct field t62f[] = { { .type = &t61, .bitfield = -1, .offset = 0 } };
static struct struct_data t62d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t62f, .alignment = 8, .size = 32 };
static struct type t62 = { .type = TY_STRUCT, .struct_data = &t62d };
static struct field t63f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t63d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t63f, .alignment = 8, .size = 16 };
static struct type t63 = { .type = TY_STRUCT, .struct_data = &t63d };
static struct field t64f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t64d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t64f, .alignment = 8, .size = 24 };
static struct type t64 = { .type = TY_STRUCT, .struct_data = &t64d };
static struct field t65f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t32, .bitfield = -1, .offset = 16 } };
static struct struct_data t65d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t65f, .alignment = 8, .size = 24 };
static struct type t65 = { .type = TY_STRUCT, .struct_data = &t65d };
static struct field t66f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t66d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t66f, .alignment = 8, .size = 24 };
static struct type t66 = { .type = TY_STRUCT, .struct_data = &t66d };
static struct field t67f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t67d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t67f, .alignment = 8, .size = 24 };
static struct type t67 = { .type = TY_STRUCT, .struct_data = &t67d };
static struct field t68f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t68d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t68f, .alignment = 8, .size = 24 };
static struct type t68 = { .type = TY_STRUCT, .struct_data = &t68d };
static struct field t69f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t69d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t69f, .alignment = 8, .size = 24 };
static struct type t69 = { .type = TY_STRUCT, .struct_data = &t69d };
static struct field t70f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 4 } };
static struct struct_data t70d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t70f, .alignment = 4, .size = 8 };
static struct type t70 = { .type = TY_STRUCT, .struct_data = &t70d };
static struct type t71 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t36 } };
static struct field t72f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t71, .bitfield = -1, .offset = 0 } };
static struct struct_data t72d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t72f, .alignment = 4, .size = 20 };
static struct type t72 = { .type = TY_STRUCT, .struct_data = &t72d };
static struct field t73f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 4 } };
static struct struct_data t73d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t73f, .alignment = 4, .size = 8 };
static struct type t73 = { .type = TY_STRUCT, .struct_data = &t73d };
static struct field t74f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t70, .bitfield = -1, .offset = 4 } };
static struct struct_data t74d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t74f, .alignment = 4, .size = 12 };
static struct type t74 = { .type = TY_STRUCT, .struct_data = &t74d };
static struct type t75 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t70 } };
static struct field t76f[] = { { .type = &t75, .bitfield = -1, .offset = 0 } };
static struct struct_data t76d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t76f, .alignment = 4, .size = 16 };
static struct type t76 = { .type = TY_STRUCT, .struct_data = &t76d };
static struct field t77f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t77d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t77f, .alignment = 4, .size = 8 };
static struct type t77 = { .type = TY_STRUCT, .struct_data = &t77d };
static struct field t78f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 4 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t78d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t78f, .alignment = 4, .size = 12 };
static struct type t78 = { .type = TY_STRUCT, .struct_data = &t78d };
static struct field t79f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 4 }, { .type = &t32, .bitfield = -1, .offset = 8 } };
static struct struct_data t79d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t79f, .alignment = 4, .size = 12 };
static struct type t79 = { .type = TY_STRUCT, .struct_data = &t79d };
static struct field t80f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 4 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t80d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t80f, .alignment = 8, .size = 16 };
static struct type t80 = { .type = TY_STRUCT, .struct_data = &t80d };
static struct field t81f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 4 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t81d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t81f, .alignment = 4, .size = 12 };
static struct type t81 = { .type = TY_STRUCT, .struct_data = &t81d };
static struct field t82f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 4 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t82d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t82f, .alignment = 8, .size = 16 };
static struct type t82 = { .type = TY_STRUCT, .struct_data = &t82d };
static struct field t83f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 4 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t83d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t83f, .alignment = 8, .size = 16 };
static struct type t83 = { .type = TY_STRUCT, .struct_data = &t83d };
static struct field t84f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t84d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t84f, .alignment = 8, .size = 16 };
static struct type t84 = { .type = TY_STRUCT, .struct_data = &t84d };
static struct type t85 = { .type = TY_ARRAY, .array.length = 6, .n = 1, .children = { &t38 } };
static struct field t86f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t85, .bitfield = -1, .offset = 0 } };
static struct struct_data t86d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t86f, .alignment = 8, .size = 48 };
static struct type t86 = { .type = TY_STRUCT, .struct_data = &t86d };
static struct field t87f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t87d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t87f, .alignment = 8, .size = 16 };
static struct type t87 = { .type = TY_STRUCT, .struct_data = &t87d };
static struct field t88f[] = { { .type = &t38, .bitfield = -1, .offset = 0 }, { .type = &t84, .bitfield = -1, .offset = 8 } };
static struct struct_data t88d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t88f, .alignment = 8, .size = 24 };
static struct type t88 = { .type = TY_STRUCT, .struct_data = &t88d };
static struct type t89 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t84 } };
static struct field t90f[] = { { .type = &t89, .bitfield = -1, .offset = 0 } };
static struct struct_data t90d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t90f, .alignment = 8, .size = 32 };
static struct type t90 = { .type = TY_STRUCT, .struct_data = &t90d };
static struct field t91f[] = { { .type = &t38, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t91d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t91f, .alignment = 8, .size = 16 };
static struct type t91 = { .type = TY_STRUCT, .struct_data = &t91d };
static struct field t92f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t92d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t92f, .alignment = 8, .size = 24 };
static struct type t92 = { .type = TY_STRUCT, .struct_data = &t92d };
static struct field t93f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t32, .bitfield = -1, .offset = 16 } };
static struct struct_data t93d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t93f, .alignment = 8, .size = 24 };
static struct type t93 = { .type = TY_STRUCT, .struct_data = &t93d };
static struct field t94f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t94d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t94f, .alignment = 8, .size = 24 };
static struct type t94 = { .type = TY_STRUCT, .struct_data = &t94d };
static struct field t95f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t95d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t95f, .alignment = 8, .size = 24 };
static struct type t95 = { .type = TY_STRUCT, .struct_data = &t95d };
static struct field t96f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t96d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t96f, .alignment = 8, .size = 24 };
static struct type t96 = { .type = TY_STRUCT, .struct_data = &t96d };
static struct field t97f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t97d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t97f, .alignment = 8, .size = 24 };
static struct type t97 = { .type = TY_STRUCT, .struct_data = &t97d };
static struct field t98f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t98d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t98f, .alignment = 8, .size = 16 };
static struct type t98 = { .type = TY_STRUCT, .struct_data = &t98d };
static struct type t99 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t40 } };
static struct field t100f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t99, .bitfield = -1, .offset = 0 } };
static struct struct_data t100d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t100f, .alignment = 8, .size = 56 };
static struct type t100 = { .type = TY_STRUCT, .struct_data = &t100d };
static struct field t101f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t101d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t101f, .alignment = 8, .size = 16 };
static struct type t101 = { .type = TY_STRUCT, .struct_data = &t101d };
static struct field t102f[] = { { .type = &t40, .bitfield = -1, .offset = 0 }, { .type = &t98, .bitfield = -1, .offset = 8 } };
static struct struct_data t102d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t102f, .alignment = 8, .size = 24 };
static struct type t102 = { .type = TY_STRUCT, .struct_data = &t102d };
static struct type t103 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t98 } };
static struct field t104f[] = { { .type = &t103, .bitfield = -1, .offset = 0 } };
static struct struct_data t104d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t104f, .alignment = 8, .size = 32 };
static struct type t104 = { .type = TY_STRUCT, .struct_data = &t104d };
static struct field t105f[] = { { .type = &t40, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t105d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t105f, .alignment = 8, .size = 16 };
static struct type t105 = { .type = TY_STRUCT, .struct_data = &t105d };
static struct field t106f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t106d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t106f, .alignment = 8, .size = 24 };
static struct type t106 = { .type = TY_STRUCT, .struct_data = &t106d };
static struct field t107f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t32, .bitfield = -1, .offset = 16 } };
static struct struct_data t107d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t107f, .alignment = 8, .size = 24 };
static struct type t107 = { .type = TY_STRUCT, .struct_data = &t107d };
static struct field t108f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t108d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t108f, .alignment = 8, .size = 24 };
static struct type t108 = { .type = TY_STRUCT, .struct_data = &t108d };
static struct field t109f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t109d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t109f, .alignment = 8, .size = 24 };
static struct type t109 = { .type = TY_STRUCT, .struct_data = &t109d };
static struct field t110f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t110d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t110f, .alignment = 8, .size = 24 };
static struct type t110 = { .type = TY_STRUCT, .struct_data = &t110d };
static struct field t111f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t111d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t111f, .alignment = 8, .size = 24 };
static struct type t111 = { .type = TY_STRUCT, .struct_data = &t111d };
static const struct row rows[] = {
{ &t0, 1, 1, { P_GP } },
{ &t1, 1, 1, { P_GP } },
{ &t3, 1, 1, { P_GP } },
{ &t5, 2, 1, { P_GP } },
{ &t7, 3, 1, { P_GP } },
{ &t9, 4, 1, { P_GP } },
{ &t11, 5, 1, { P_GP } },
{ &t13, 7, 1, { P_GP } },
{ &t15, 8, 1, { P_GP } },
{ &t17, 9, 2, { P_GP, P_GP } },
{ &t19, 13, 2, { P_GP, P_GP } },
{ &t21, 16, 2, { P_GP, P_GP } },
{ &t23, 17, 1, { P_MEM } },
{ &t24, 2, 1, { P_GP } },
{ &t25, 1, 1, { P_GP } },
{ &t26, 3, 1, { P_GP } },
{ &t27, 3, 1, { P_GP } },
{ &t29, 4, 1, { P_GP } },
{ &t30, 3, 1, { P_GP } },
{ &t31, 3, 1, { P_GP } },
{ &t33, 8, 1, { P_GP } },
{ &t35, 16, 2, { P_GP, P_GP } },
{ &t37, 8, 1, { P_GP } },
{ &t39, 16, 2, { P_GP, P_SSE } },
{ &t41, 16, 2, { P_GP, P_GP } },
{ &t42, 8, 1, { P_GP } },
{ &t44, 12, 2, { P_GP, P_GP } },
{ &t45, 8, 1, { P_GP } },
{ &t46, 12, 2, { P_GP, P_GP } },
{ &t48, 16, 2, { P_GP, P_GP } },
{ &t49, 8, 1, { P_GP } },
{ &t50, 12, 2, { P_GP, P_GP } },
{ &t51, 12, 2, { P_GP, P_GP } },
{ &t52, 16, 2, { P_GP, P_GP } },
{ &t53, 12, 2, { P_GP, P_SSE } },
{ &t54, 16, 2, { P_GP, P_SSE } },
{ &t55, 16, 2, { P_GP, P_GP } },
{ &t56, 16, 2, { P_GP, P_GP } },
{ &t58, 32, 1, { P_MEM } },
{ &t59, 16, 2, { P_GP, P_GP } },
{ &t60, 24, 1, { P_MEM } },
{ &t62, 32, 1, { P_MEM } },
{ &t63, 16, 2, { P_GP, P_GP } },
{ &t64, 24, 1, { P_MEM } },
{ &t65, 24, 1, { P_MEM } },
{ &t66, 24, 1, { P_MEM } },
{ &t67, 24, 1, { P_MEM } },
{ &t68, 24, 1, { P_MEM } },
{ &t69, 24, 1, { P_MEM } },
{ &t70, 8, 1, { P_GP } },
{ &t72, 20, 1, { P_MEM } },
{ &t73, 8, 1, { P_GP } },
{ &t74, 12, 2, { P_GP, P_SSE } },
{ &t76, 16, 2, { P_GP, P_GP } },
{ &t77, 8, 1, { P_GP } },
{ &t78, 12, 2, { P_GP, P_GP } },
{ &t79, 12, 2, { P_GP, P_GP } },
{ &t80, 16, 2, { P_GP, P_GP } },
{ &t81, 12, 2, { P_GP, P_SSE } },
{ &t82, 16, 2, { P_GP, P_SSE } },
{ &t83, 16, 2, { P_GP, P_GP } },
{ &t84, 16, 2, { P_GP, P_SSE } },
{ &t86, 48, 1, { P_MEM } },
{ &t87, 16, 2, { P_GP, P_SSE } },
{ &t88, 24, 1, { P_MEM } },
{ &t90, 32, 1, { P_MEM } },
{ &t91, 16, 2, { P_SSE, P_GP } },
{ &t92, 24, 1, { P_MEM } },
{ &t93, 24, 1, { P_MEM } },
{ &t94, 24, 1, { P_MEM } },
{ &t95, 24, 1, { P_MEM } },
{ &t96, 24, 1, { P_MEM } },
{ &t97, 24, 1, { P_MEM } },
{ &t98, 16, 2, { P_GP, P_GP } },
{ &t100, 56, 1, { P_MEM } },
{ &t101, 16, 2, { P_GP, P_GP } },
{ &t102, 24, 1, { P_MEM } },
{ &t104, 32, 1, { P_MEM } },
{ &t105, 16, 2, { P_GP, P_GP } },
{ &t106, 24, 1, { P_MEM } },
{ &t107, 24, 1, { P_MEM } },
{ &t108, 24, 1, { P_MEM } },
{ &t109, 24, 1, { P_MEM } },
{ &t110, 24, 1, { P_MEM } },
{ &t111, 24, 1, { P_MEM } }
};
#elif CLASSIFY == 1
static struct type t0 = { .type = TY_SIMPLE, .simple = ST_USHORT };
static struct field t1f[] = { { .type = &t0, .bitfield = -1, .offset = 0 } };
static struct struct_data t1d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t1f, .alignment = 2, .size = 2 };
static struct type t1 = { .type = TY_STRUCT, .struct_data = &t1d };
static struct type t2 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t0 } };
static struct field t3f[] = { { .type = &t2, .bitfield = -1, .offset = 0 } };
static struct struct_data t3d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t3f, .alignment = 2, .size = 2 };
static struct type t3 = { .type = TY_STRUCT, .struct_data = &t3d };
static struct type t4 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t0 } };
static struct field t5f[] = { { .type = &t4, .bitfield = -1, .offset = 0 } };
static struct struct_data t5d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t5f, .alignment = 2, .size = 4 };
static struct type t5 = { .type = TY_STRUCT, .struct_data = &t5d };
static struct type t6 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t0 } };
static struct field t7f[] = { { .type = &t6, .bitfield = -1, .offset = 0 } };
static struct struct_data t7d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t7f, .alignment = 2, .size = 6 };
static struct type t7 = { .type = TY_STRUCT, .struct_data = &t7d };
static struct type t8 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t0 } };
static struct field t9f[] = { { .type = &t8, .bitfield = -1, .offset = 0 } };
static struct struct_data t9d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t9f, .alignment = 2, .size = 8 };
static struct type t9 = { .type = TY_STRUCT, .struct_data = &t9d };
static struct type t10 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t0 } };
static struct field t11f[] = { { .type = &t10, .bitfield = -1, .offset = 0 } };
static struct struct_data t11d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t11f, .alignment = 2, .size = 10 };
static struct type t11 = { .type = TY_STRUCT, .struct_data = &t11d };
static struct type t12 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t0 } };
static struct field t13f[] = { { .type = &t12, .bitfield = -1, .offset = 0 } };
static struct struct_data t13d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t13f, .alignment = 2, .size = 14 };
static struct type t13 = { .type = TY_STRUCT, .struct_data = &t13d };
static struct type t14 = { .type = TY_ARRAY, .array.length = 8, .n = 1, .children = { &t0 } };
static struct field t15f[] = { { .type = &t14, .bitfield = -1, .offset = 0 } };
static struct struct_data t15d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t15f, .alignment = 2, .size = 16 };
static struct type t15 = { .type = TY_STRUCT, .struct_data = &t15d };
static struct type t16 = { .type = TY_ARRAY, .array.length = 9, .n = 1, .children = { &t0 } };
static struct field t17f[] = { { .type = &t16, .bitfield = -1, .offset = 0 } };
static struct struct_data t17d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t17f, .alignment = 2, .size = 18 };
static struct type t17 = { .type = TY_STRUCT, .struct_data = &t17d };
static struct type t18 = { .type = TY_ARRAY, .array.length = 13, .n = 1, .children = { &t0 } };
static struct field t19f[] = { { .type = &t18, .bitfield = -1, .offset = 0 } };
static struct struct_data t19d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t19f, .alignment = 2, .size = 26 };
static struct type t19 = { .type = TY_STRUCT, .struct_data = &t19d };
static struct type t20 = { .type = TY_ARRAY, .array.length = 16, .n = 1, .children = { &t0 } };
static struct field t21f[] = { { .type = &t20, .bitfield = -1, .offset = 0 } };
static struct struct_data t21d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t21f, .alignment = 2, .size = 32 };
static struct type t21 = { .type = TY_STRUCT, .struct_data = &t21d };
static struct type t22 = { .type = TY_ARRAY, .array.length = 17, .n = 1, .children = { &t0 } };
static struct field t23f[] = { { .type = &t22, .bitfield = -1, .offset = 0 } };
static struct struct_data t23d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t23f, .alignment = 2, .size = 34 };
static struct type t23 = { .type = TY_STRUCT, .struct_data = &t23d };
static struct type t24 = { .type = TY_SIMPLE, .simple = ST_CHAR };
static struct field t25f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 2 } };
static struct struct_data t25d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t25f, .alignment = 2, .size = 4 };
static struct type t25 = { .type = TY_STRUCT, .struct_data = &t25d };
static struct type t26 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t24 } };
static struct field t27f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t26, .bitfield = -1, .offset = 0 } };
static struct struct_data t27d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t27f, .alignment = 2, .size = 2 };
static struct type t27 = { .type = TY_STRUCT, .struct_data = &t27d };
static struct field t28f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 } };
static struct struct_data t28d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t28f, .alignment = 2, .size = 6 };
static struct type t28 = { .type = TY_STRUCT, .struct_data = &t28d };
static struct field t29f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t25, .bitfield = -1, .offset = 2 } };
static struct struct_data t29d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t29f, .alignment = 2, .size = 6 };
static struct type t29 = { .type = TY_STRUCT, .struct_data = &t29d };
static struct type t30 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t25 } };
static struct field t31f[] = { { .type = &t30, .bitfield = -1, .offset = 0 } };
static struct struct_data t31d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t31f, .alignment = 2, .size = 8 };
static struct type t31 = { .type = TY_STRUCT, .struct_data = &t31d };
static struct field t32f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 2 } };
static struct struct_data t32d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t32f, .alignment = 2, .size = 6 };
static struct type t32 = { .type = TY_STRUCT, .struct_data = &t32d };
static struct field t33f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 2 }, { .type = &t24, .bitfield = -1, .offset = 3 } };
static struct struct_data t33d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t33f, .alignment = 2, .size = 4 };
static struct type t33 = { .type = TY_STRUCT, .struct_data = &t33d };
static struct type t34 = { .type = TY_SIMPLE, .simple = ST_INT };
static struct field t35f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 2 }, { .type = &t34, .bitfield = -1, .offset = 4 } };
static struct struct_data t35d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t35f, .alignment = 4, .size = 8 };
static struct type t35 = { .type = TY_STRUCT, .struct_data = &t35d };
static struct type t36 = { .type = TY_SIMPLE, .simple = ST_LONG };
static struct field t37f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 2 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t37d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t37f, .alignment = 8, .size = 16 };
static struct type t37 = { .type = TY_STRUCT, .struct_data = &t37d };
static struct type t38 = { .type = TY_SIMPLE, .simple = ST_FLOAT };
static struct field t39f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 2 }, { .type = &t38, .bitfield = -1, .offset = 4 } };
static struct struct_data t39d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t39f, .alignment = 4, .size = 8 };
static struct type t39 = { .type = TY_STRUCT, .struct_data = &t39d };
static struct type t40 = { .type = TY_SIMPLE, .simple = ST_DOUBLE };
static struct field t41f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 2 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t41d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t41f, .alignment = 8, .size = 16 };
static struct type t41 = { .type = TY_STRUCT, .struct_data = &t41d };
static struct type t42 = { .type = TY_POINTER, .n = 1, .children = { &t24 } };
static struct field t43f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 2 }, { .type = &t42, .bitfield = -1, .offset = 8 } };
static struct struct_data t43d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t43f, .alignment = 8, .size = 16 };
static struct type t43 = { .type = TY_STRUCT, .struct_data = &t43d };
static struct field t44f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 } };
static struct struct_data t44d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t44f, .alignment = 4, .size = 8 };
static struct type t44 = { .type = TY_STRUCT, .struct_data = &t44d };
static struct type t45 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t34 } };
static struct field t46f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t45, .bitfield = -1, .offset = 0 } };
static struct struct_data t46d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t46f, .alignment = 4, .size = 12 };
static struct type t46 = { .type = TY_STRUCT, .struct_data = &t46d };
static struct field t47f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 } };
static struct struct_data t47d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t47f, .alignment = 4, .size = 8 };
static struct type t47 = { .type = TY_STRUCT, .struct_data = &t47d };
static struct field t48f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t44, .bitfield = -1, .offset = 4 } };
static struct struct_data t48d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t48f, .alignment = 4, .size = 12 };
static struct type t48 = { .type = TY_STRUCT, .struct_data = &t48d };
static struct type t49 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t44 } };
static struct field t50f[] = { { .type = &t49, .bitfield = -1, .offset = 0 } };
static struct struct_data t50d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t50f, .alignment = 4, .size = 16 };
static struct type t50 = { .type = TY_STRUCT, .struct_data = &t50d };
static struct field t51f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t51d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t51f, .alignment = 4, .size = 8 };
static struct type t51 = { .type = TY_STRUCT, .struct_data = &t51d };
static struct field t52f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t52d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t52f, .alignment = 4, .size = 12 };
static struct type t52 = { .type = TY_STRUCT, .struct_data = &t52d };
static struct field t53f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t53d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t53f, .alignment = 4, .size = 12 };
static struct type t53 = { .type = TY_STRUCT, .struct_data = &t53d };
static struct field t54f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t54d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t54f, .alignment = 8, .size = 16 };
static struct type t54 = { .type = TY_STRUCT, .struct_data = &t54d };
static struct field t55f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t55d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t55f, .alignment = 4, .size = 12 };
static struct type t55 = { .type = TY_STRUCT, .struct_data = &t55d };
static struct field t56f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t56d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t56f, .alignment = 8, .size = 16 };
static struct type t56 = { .type = TY_STRUCT, .struct_data = &t56d };
static struct field t57f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t42, .bitfield = -1, .offset = 8 } };
static struct struct_data t57d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t57f, .alignment = 8, .size = 16 };
static struct type t57 = { .type = TY_STRUCT, .struct_data = &t57d };
static struct field t58f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t58d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t58f, .alignment = 8, .size = 16 };
static struct type t58 = { .type = TY_STRUCT, .struct_data = &t58d };
static struct type t59 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t36 } };
static struct field t60f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t59, .bitfield = -1, .offset = 0 } };
static struct struct_data t60d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t60f, .alignment = 8, .size = 32 };
static struct type t60 = { .type = TY_STRUCT, .struct_data = &t60d };
static struct field t61f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t61d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t61f, .alignment = 8, .size = 16 };
static struct type t61 = { .type = TY_STRUCT, .struct_data = &t61d };
static struct field t62f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t58, .bitfield = -1, .offset = 8 } };
static struct struct_data t62d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t62f, .alignment = 8, .size = 24 };
static struct type t62 = { .type = TY_STRUCT, .struct_data = &t62d };
static struct type t63 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t58 } };
static struct field t64f[] = { { .type = &t63, .bitfield = -1, .offset = 0 } };
static struct struct_data t64d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t64f, .alignment = 8, .size = 32 };
static struct type t64 = { .type = TY_STRUCT, .struct_data = &t64d };
static struct field t65f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t65d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t65f, .alignment = 8, .size = 16 };
static struct type t65 = { .type = TY_STRUCT, .struct_data = &t65d };
static struct field t66f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t66d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t66f, .alignment = 8, .size = 24 };
static struct type t66 = { .type = TY_STRUCT, .struct_data = &t66d };
static struct field t67f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t67d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t67f, .alignment = 8, .size = 24 };
static struct type t67 = { .type = TY_STRUCT, .struct_data = &t67d };
static struct field t68f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t68d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t68f, .alignment = 8, .size = 24 };
static struct type t68 = { .type = TY_STRUCT, .struct_data = &t68d };
static struct field t69f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t69d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t69f, .alignment = 8, .size = 24 };
static struct type t69 = { .type = TY_STRUCT, .struct_data = &t69d };
static struct field t70f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t70d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t70f, .alignment = 8, .size = 24 };
static struct type t70 = { .type = TY_STRUCT, .struct_data = &t70d };
static struct field t71f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t42, .bitfield = -1, .offset = 16 } };
static struct struct_data t71d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t71f, .alignment = 8, .size = 24 };
static struct type t71 = { .type = TY_STRUCT, .struct_data = &t71d };
static struct field t72f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 } };
static struct struct_data t72d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t72f, .alignment = 4, .size = 8 };
static struct type t72 = { .type = TY_STRUCT, .struct_data = &t72d };
static struct type t73 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t38 } };
static struct field t74f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t73, .bitfield = -1, .offset = 0 } };
static struct struct_data t74d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t74f, .alignment = 4, .size = 20 };
static struct type t74 = { .type = TY_STRUCT, .struct_data = &t74d };
static struct field t75f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 } };
static struct struct_data t75d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t75f, .alignment = 4, .size = 8 };
static struct type t75 = { .type = TY_STRUCT, .struct_data = &t75d };
static struct field t76f[] = { { .type = &t38, .bitfield = -1, .offset = 0 }, { .type = &t72, .bitfield = -1, .offset = 4 } };
static struct struct_data t76d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t76f, .alignment = 4, .size = 12 };
static struct type t76 = { .type = TY_STRUCT, .struct_data = &t76d };
static struct type t77 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t72 } };
static struct field t78f[] = { { .type = &t77, .bitfield = -1, .offset = 0 } };
static struct struct_data t78d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t78f, .alignment = 4, .size = 16 };
static struct type t78 = { .type = TY_STRUCT, .struct_data = &t78d };
static struct field t79f[] = { { .type = &t38, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t79d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t79f, .alignment = 4, .size = 8 };
static struct type t79 = { .type = TY_STRUCT, .struct_data = &t79d };
static struct field t80f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t80d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t80f, .alignment = 4, .size = 12 };
static struct type t80 = { .type = TY_STRUCT, .struct_data = &t80d };
static struct field t81f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t81d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t81f, .alignment = 4, .size = 12 };
static struct type t81 = { .type = TY_STRUCT, .struct_data = &t81d };
static struct field t82f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t82d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t82f, .alignment = 8, .size = 16 };
static struct type t82 = { .type = TY_STRUCT, .struct_data = &t82d };
static struct field t83f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t83d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t83f, .alignment = 4, .size = 12 };
static struct type t83 = { .type = TY_STRUCT, .struct_data = &t83d };
static struct field t84f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t84d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t84f, .alignment = 8, .size = 16 };
static struct type t84 = { .type = TY_STRUCT, .struct_data = &t84d };
static struct field t85f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t42, .bitfield = -1, .offset = 8 } };
static struct struct_data t85d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t85f, .alignment = 8, .size = 16 };
static struct type t85 = { .type = TY_STRUCT, .struct_data = &t85d };
static struct field t86f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t86d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t86f, .alignment = 8, .size = 16 };
static struct type t86 = { .type = TY_STRUCT, .struct_data = &t86d };
static struct type t87 = { .type = TY_ARRAY, .array.length = 6, .n = 1, .children = { &t40 } };
static struct field t88f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t87, .bitfield = -1, .offset = 0 } };
static struct struct_data t88d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t88f, .alignment = 8, .size = 48 };
static struct type t88 = { .type = TY_STRUCT, .struct_data = &t88d };
static struct field t89f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t89d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t89f, .alignment = 8, .size = 16 };
static struct type t89 = { .type = TY_STRUCT, .struct_data = &t89d };
static struct field t90f[] = { { .type = &t40, .bitfield = -1, .offset = 0 }, { .type = &t86, .bitfield = -1, .offset = 8 } };
static struct struct_data t90d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t90f, .alignment = 8, .size = 24 };
static struct type t90 = { .type = TY_STRUCT, .struct_data = &t90d };
static struct type t91 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t86 } };
static struct field t92f[] = { { .type = &t91, .bitfield = -1, .offset = 0 } };
static struct struct_data t92d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t92f, .alignment = 8, .size = 32 };
static struct type t92 = { .type = TY_STRUCT, .struct_data = &t92d };
static struct field t93f[] = { { .type = &t40, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t93d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t93f, .alignment = 8, .size = 16 };
static struct type t93 = { .type = TY_STRUCT, .struct_data = &t93d };
static struct field t94f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t94d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t94f, .alignment = 8, .size = 24 };
static struct type t94 = { .type = TY_STRUCT, .struct_data = &t94d };
static struct field t95f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t95d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t95f, .alignment = 8, .size = 24 };
static struct type t95 = { .type = TY_STRUCT, .struct_data = &t95d };
static struct field t96f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t96d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t96f, .alignment = 8, .size = 24 };
static struct type t96 = { .type = TY_STRUCT, .struct_data = &t96d };
static struct field t97f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t97d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t97f, .alignment = 8, .size = 24 };
static struct type t97 = { .type = TY_STRUCT, .struct_data = &t97d };
static struct field t98f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t98d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t98f, .alignment = 8, .size = 24 };
static struct type t98 = { .type = TY_STRUCT, .struct_data = &t98d };
static struct field t99f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t42, .bitfield = -1, .offset = 16 } };
static struct struct_data t99d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t99f, .alignment = 8, .size = 24 };
static struct type t99 = { .type = TY_STRUCT, .struct_data = &t99d };
static struct field t100f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 } };
static struct struct_data t100d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t100f, .alignment = 8, .size = 16 };
static struct type t100 = { .type = TY_STRUCT, .struct_data = &t100d };
static struct type t101 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t42 } };
static struct field t102f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t101, .bitfield = -1, .offset = 0 } };
static struct struct_data t102d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t102f, .alignment = 8, .size = 56 };
static struct type t102 = { .type = TY_STRUCT, .struct_data = &t102d };
static struct field t103f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 } };
static struct struct_data t103d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t103f, .alignment = 8, .size = 16 };
static struct type t103 = { .type = TY_STRUCT, .struct_data = &t103d };
static struct field t104f[] = { { .type = &t42, .bitfield = -1, .offset = 0 }, { .type = &t100, .bitfield = -1, .offset = 8 } };
static struct struct_data t104d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t104f, .alignment = 8, .size = 24 };
static struct type t104 = { .type = TY_STRUCT, .struct_data = &t104d };
static struct type t105 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t100 } };
static struct field t106f[] = { { .type = &t105, .bitfield = -1, .offset = 0 } };
static struct struct_data t106d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t106f, .alignment = 8, .size = 32 };
static struct type t106 = { .type = TY_STRUCT, .struct_data = &t106d };
static struct field t107f[] = { { .type = &t42, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t107d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t107f, .alignment = 8, .size = 16 };
static struct type t107 = { .type = TY_STRUCT, .struct_data = &t107d };
static struct field t108f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t108d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t108f, .alignment = 8, .size = 24 };
static struct type t108 = { .type = TY_STRUCT, .struct_data = &t108d };
static struct field t109f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t109d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t109f, .alignment = 8, .size = 24 };
static struct type t109 = { .type = TY_STRUCT, .struct_data = &t109d };
static struct field t110f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t110d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t110f, .alignment = 8, .size = 24 };
static struct type t110 = { .type = TY_STRUCT, .struct_data = &t110d };
static struct field t111f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t111d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t111f, .alignment = 8, .size = 24 };
static struct type t111 = { .type = TY_STRUCT, .struct_data = &t111d };
static struct field t112f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t112d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t112f, .alignment = 8, .size = 24 };
static struct type t112 = { .type = TY_STRUCT, .struct_data = &t112d };
static struct field t113f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t42, .bitfield = -1, .offset = 16 } };
static struct struct_data t113d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t113f, .alignment = 8, .size = 24 };
static struct type t113 = { .type = TY_STRUCT, .struct_data = &t113d };
static const struct row rows[] = {
{ &t0, 2, 1, { P_GP } },
{ &t1, 2, 1, { P_GP } },
{ &t3, 2, 1, { P_GP } },
{ &t5, 4, 1, { P_GP } },
{ &t7, 6, 1, { P_GP } },
{ &t9, 8, 1, { P_GP } },
{ &t11, 10, 2, { P_GP, P_GP } },
{ &t13, 14, 2, { P_GP, P_GP } },
{ &t15, 16, 2, { P_GP, P_GP } },
{ &t17, 18, 1, { P_MEM } },
{ &t19, 26, 1, { P_MEM } },
{ &t21, 32, 1, { P_MEM } },
{ &t23, 34, 1, { P_MEM } },
{ &t25, 4, 1, { P_GP } },
{ &t27, 2, 1, { P_GP } },
{ &t28, 6, 1, { P_GP } },
{ &t29, 6, 1, { P_GP } },
{ &t31, 8, 1, { P_GP } },
{ &t32, 6, 1, { P_GP } },
{ &t33, 4, 1, { P_GP } },
{ &t35, 8, 1, { P_GP } },
{ &t37, 16, 2, { P_GP, P_GP } },
{ &t39, 8, 1, { P_GP } },
{ &t41, 16, 2, { P_GP, P_SSE } },
{ &t43, 16, 2, { P_GP, P_GP } },
{ &t44, 8, 1, { P_GP } },
{ &t46, 12, 2, { P_GP, P_GP } },
{ &t47, 8, 1, { P_GP } },
{ &t48, 12, 2, { P_GP, P_GP } },
{ &t50, 16, 2, { P_GP, P_GP } },
{ &t51, 8, 1, { P_GP } },
{ &t52, 12, 2, { P_GP, P_GP } },
{ &t53, 12, 2, { P_GP, P_GP } },
{ &t54, 16, 2, { P_GP, P_GP } },
{ &t55, 12, 2, { P_GP, P_SSE } },
{ &t56, 16, 2, { P_GP, P_SSE } },
{ &t57, 16, 2, { P_GP, P_GP } },
{ &t58, 16, 2, { P_GP, P_GP } },
{ &t60, 32, 1, { P_MEM } },
{ &t61, 16, 2, { P_GP, P_GP } },
{ &t62, 24, 1, { P_MEM } },
{ &t64, 32, 1, { P_MEM } },
{ &t65, 16, 2, { P_GP, P_GP } },
{ &t66, 24, 1, { P_MEM } },
{ &t67, 24, 1, { P_MEM } },
{ &t68, 24, 1, { P_MEM } },
{ &t69, 24, 1, { P_MEM } },
{ &t70, 24, 1, { P_MEM } },
{ &t71, 24, 1, { P_MEM } },
{ &t72, 8, 1, { P_GP } },
{ &t74, 20, 1, { P_MEM } },
{ &t75, 8, 1, { P_GP } },
{ &t76, 12, 2, { P_GP, P_SSE } },
{ &t78, 16, 2, { P_GP, P_GP } },
{ &t79, 8, 1, { P_GP } },
{ &t80, 12, 2, { P_GP, P_GP } },
{ &t81, 12, 2, { P_GP, P_GP } },
{ &t82, 16, 2, { P_GP, P_GP } },
{ &t83, 12, 2, { P_GP, P_SSE } },
{ &t84, 16, 2, { P_GP, P_SSE } },
{ &t85, 16, 2, { P_GP, P_GP } },
{ &t86, 16, 2, { P_GP, P_SSE } },
{ &t88, 48, 1, { P_MEM } },
{ &t89, 16, 2, { P_GP, P_SSE } },
{ &t90, 24, 1, { P_MEM } },
{ &t92, 32, 1, { P_MEM } },
{ &t93, 16, 2, { P_SSE, P_GP } },
{ &t94, 24, 1, { P_MEM } },
{ &t95, 24, 1, { P_MEM } },
{ &t96, 24, 1, { P_MEM } },
{ &t97, 24, 1, { P_MEM } },
{ &t98, 24, 1, { P_MEM } },
{ &t99, 24, 1, { P_MEM } },
{ &t100, 16, 2, { P_GP, P_GP } },
{ &t102, 56, 1, { P_MEM } },
{ &t103, 16, 2, { P_GP, P_GP } },
{ &t104, 24, 1, { P_MEM } },
{ &t106, 32, 1, { P_MEM } },
{ &t107, 16, 2, { P_GP, P_GP } },
{ &t108, 24, 1, { P_MEM } },
{ &t109, 24, 1, { P_MEM } },
{ &t110, 24, 1, { P_MEM } },
{ &t111, 24, 1, { P_MEM } },
{ &t112, 24, 1, { P_MEM } },
{ &t113, 24, 1, { P_MEM } }
};
#elif CLASSIFY == 2
static struct type t0 = { .type = TY_SIMPLE, .simple = ST_INT };
static struct field t1f[] = { { .type = &t0, .bitfield = -1, .offset = 0 } };
static struct struct_data t1d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t1f, .alignment = 4, .size = 4 };
static struct type t1 = { .type = TY_STRUCT, .struct_data = &t1d };
static struct type t2 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t0 } };
static struct field t3f[] = { { .type = &t2, .bitfield = -1, .offset = 0 } };
static struct struct_data t3d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t3f, .alignment = 4, .size = 4 };
static struct type t3 = { .type = TY_STRUCT, .struct_data = &t3d };
static struct type t4 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t0 } };
static struct field t5f[] = { { .type = &t4, .bitfield = -1, .offset = 0 } };
static struct struct_data t5d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t5f, .alignment = 4, .size = 8 };
static struct type t5 = { .type = TY_STRUCT, .struct_data = &t5d };
static struct type t6 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t0 } };
static struct field t7f[] = { { .type = &t6, .bitfield = -1, .offset = 0 } };
static struct struct_data t7d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t7f, .alignment = 4, .size = 12 };
static struct type t7 = { .type = TY_STRUCT, .struct_data = &t7d };
static struct type t8 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t0 } };
static struct field t9f[] = { { .type = &t8, .bitfield = -1, .offset = 0 } };
static struct struct_data t9d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t9f, .alignment = 4, .size = 16 };
static struct type t9 = { .type = TY_STRUCT, .struct_data = &t9d };
static struct type t10 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t0 } };
static struct field t11f[] = { { .type = &t10, .bitfield = -1, .offset = 0 } };
static struct struct_data t11d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t11f, .alignment = 4, .size = 20 };
static struct type t11 = { .type = TY_STRUCT, .struct_data = &t11d };
static struct type t12 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t0 } };
static struct field t13f[] = { { .type = &t12, .bitfield = -1, .offset = 0 } };
static struct struct_data t13d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t13f, .alignment = 4, .size = 28 };
static struct type t13 = { .type = TY_STRUCT, .struct_data = &t13d };
static struct type t14 = { .type = TY_ARRAY, .array.length = 8, .n = 1, .children = { &t0 } };
static struct field t15f[] = { { .type = &t14, .bitfield = -1, .offset = 0 } };
static struct struct_data t15d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t15f, .alignment = 4, .size = 32 };
static struct type t15 = { .type = TY_STRUCT, .struct_data = &t15d };
static struct type t16 = { .type = TY_ARRAY, .array.length = 9, .n = 1, .children = { &t0 } };
static struct field t17f[] = { { .type = &t16, .bitfield = -1, .offset = 0 } };
static struct struct_data t17d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t17f, .alignment = 4, .size = 36 };
static struct type t17 = { .type = TY_STRUCT, .struct_data = &t17d };
static struct type t18 = { .type = TY_ARRAY, .array.length = 13, .n = 1, .children = { &t0 } };
static struct field t19f[] = { { .type = &t18, .bitfield = -1, .offset = 0 } };
static struct struct_data t19d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t19f, .alignment = 4, .size = 52 };
static struct type t19 = { .type = TY_STRUCT, .struct_data = &t19d };
static struct type t20 = { .type = TY_ARRAY, .array.length = 16, .n = 1, .children = { &t0 } };
static struct field t21f[] = { { .type = &t20, .bitfield = -1, .offset = 0 } };
static struct struct_data t21d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t21f, .alignment = 4, .size = 64 };
static struct type t21 = { .type = TY_STRUCT, .struct_data = &t21d };
static struct type t22 = { .type = TY_ARRAY, .array.length = 17, .n = 1, .children = { &t0 } };
static struct field t23f[] = { { .type = &t22, .bitfield = -1, .offset = 0 } };
static struct struct_data t23d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t23f, .alignment = 4, .size = 68 };
static struct type t23 = { .type = TY_STRUCT, .struct_data = &t23d };
static struct type t24 = { .type = TY_SIMPLE, .simple = ST_CHAR };
static struct field t25f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 } };
static struct struct_data t25d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t25f, .alignment = 4, .size = 8 };
static struct type t25 = { .type = TY_STRUCT, .struct_data = &t25d };
static struct type t26 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t24 } };
static struct field t27f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t26, .bitfield = -1, .offset = 0 } };
static struct struct_data t27d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t27f, .alignment = 4, .size = 4 };
static struct type t27 = { .type = TY_STRUCT, .struct_data = &t27d };
static struct field t28f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t28d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t28f, .alignment = 4, .size = 12 };
static struct type t28 = { .type = TY_STRUCT, .struct_data = &t28d };
static struct field t29f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t25, .bitfield = -1, .offset = 4 } };
static struct struct_data t29d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t29f, .alignment = 4, .size = 12 };
static struct type t29 = { .type = TY_STRUCT, .struct_data = &t29d };
static struct type t30 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t25 } };
static struct field t31f[] = { { .type = &t30, .bitfield = -1, .offset = 0 } };
static struct struct_data t31d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t31f, .alignment = 4, .size = 16 };
static struct type t31 = { .type = TY_STRUCT, .struct_data = &t31d };
static struct field t32f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t32d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t32f, .alignment = 4, .size = 12 };
static struct type t32 = { .type = TY_STRUCT, .struct_data = &t32d };
static struct field t33f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t24, .bitfield = -1, .offset = 5 } };
static struct struct_data t33d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t33f, .alignment = 4, .size = 8 };
static struct type t33 = { .type = TY_STRUCT, .struct_data = &t33d };
static struct field t34f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t34d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t34f, .alignment = 4, .size = 12 };
static struct type t34 = { .type = TY_STRUCT, .struct_data = &t34d };
static struct type t35 = { .type = TY_SIMPLE, .simple = ST_LONG };
static struct field t36f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t35, .bitfield = -1, .offset = 8 } };
static struct struct_data t36d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t36f, .alignment = 8, .size = 16 };
static struct type t36 = { .type = TY_STRUCT, .struct_data = &t36d };
static struct type t37 = { .type = TY_SIMPLE, .simple = ST_FLOAT };
static struct field t38f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t37, .bitfield = -1, .offset = 8 } };
static struct struct_data t38d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t38f, .alignment = 4, .size = 12 };
static struct type t38 = { .type = TY_STRUCT, .struct_data = &t38d };
static struct type t39 = { .type = TY_SIMPLE, .simple = ST_DOUBLE };
static struct field t40f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t40d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t40f, .alignment = 8, .size = 16 };
static struct type t40 = { .type = TY_STRUCT, .struct_data = &t40d };
static struct type t41 = { .type = TY_POINTER, .n = 1, .children = { &t24 } };
static struct field t42f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t42d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t42f, .alignment = 8, .size = 16 };
static struct type t42 = { .type = TY_STRUCT, .struct_data = &t42d };
static struct field t43f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 } };
static struct struct_data t43d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t43f, .alignment = 4, .size = 8 };
static struct type t43 = { .type = TY_STRUCT, .struct_data = &t43d };
static struct field t44f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t6, .bitfield = -1, .offset = 0 } };
static struct struct_data t44d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t44f, .alignment = 4, .size = 12 };
static struct type t44 = { .type = TY_STRUCT, .struct_data = &t44d };
static struct field t45f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t45d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t45f, .alignment = 4, .size = 12 };
static struct type t45 = { .type = TY_STRUCT, .struct_data = &t45d };
static struct field t46f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t43, .bitfield = -1, .offset = 4 } };
static struct struct_data t46d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t46f, .alignment = 4, .size = 12 };
static struct type t46 = { .type = TY_STRUCT, .struct_data = &t46d };
static struct type t47 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t43 } };
static struct field t48f[] = { { .type = &t47, .bitfield = -1, .offset = 0 } };
static struct struct_data t48d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t48f, .alignment = 4, .size = 16 };
static struct type t48 = { .type = TY_STRUCT, .struct_data = &t48d };
static struct field t49f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t49d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t49f, .alignment = 4, .size = 12 };
static struct type t49 = { .type = TY_STRUCT, .struct_data = &t49d };
static struct field t50f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t50d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t50f, .alignment = 4, .size = 12 };
static struct type t50 = { .type = TY_STRUCT, .struct_data = &t50d };
static struct field t51f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t51d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t51f, .alignment = 4, .size = 12 };
static struct type t51 = { .type = TY_STRUCT, .struct_data = &t51d };
static struct field t52f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t35, .bitfield = -1, .offset = 8 } };
static struct struct_data t52d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t52f, .alignment = 8, .size = 16 };
static struct type t52 = { .type = TY_STRUCT, .struct_data = &t52d };
static struct field t53f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t37, .bitfield = -1, .offset = 8 } };
static struct struct_data t53d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t53f, .alignment = 4, .size = 12 };
static struct type t53 = { .type = TY_STRUCT, .struct_data = &t53d };
static struct field t54f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t54d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t54f, .alignment = 8, .size = 16 };
static struct type t54 = { .type = TY_STRUCT, .struct_data = &t54d };
static struct field t55f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t55d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t55f, .alignment = 8, .size = 16 };
static struct type t55 = { .type = TY_STRUCT, .struct_data = &t55d };
static struct field t56f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t35, .bitfield = -1, .offset = 8 } };
static struct struct_data t56d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t56f, .alignment = 8, .size = 16 };
static struct type t56 = { .type = TY_STRUCT, .struct_data = &t56d };
static struct type t57 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t35 } };
static struct field t58f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t57, .bitfield = -1, .offset = 0 } };
static struct struct_data t58d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t58f, .alignment = 8, .size = 32 };
static struct type t58 = { .type = TY_STRUCT, .struct_data = &t58d };
static struct field t59f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t35, .bitfield = -1, .offset = 8 } };
static struct struct_data t59d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t59f, .alignment = 8, .size = 16 };
static struct type t59 = { .type = TY_STRUCT, .struct_data = &t59d };
static struct field t60f[] = { { .type = &t35, .bitfield = -1, .offset = 0 }, { .type = &t56, .bitfield = -1, .offset = 8 } };
static struct struct_data t60d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t60f, .alignment = 8, .size = 24 };
static struct type t60 = { .type = TY_STRUCT, .struct_data = &t60d };
static struct type t61 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t56 } };
static struct field t62f[] = { { .type = &t61, .bitfield = -1, .offset = 0 } };
static struct struct_data t62d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t62f, .alignment = 8, .size = 32 };
static struct type t62 = { .type = TY_STRUCT, .struct_data = &t62d };
static struct field t63f[] = { { .type = &t35, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t63d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t63f, .alignment = 8, .size = 16 };
static struct type t63 = { .type = TY_STRUCT, .struct_data = &t63d };
static struct field t64f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t35, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t64d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t64f, .alignment = 8, .size = 24 };
static struct type t64 = { .type = TY_STRUCT, .struct_data = &t64d };
static struct field t65f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t35, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t65d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t65f, .alignment = 8, .size = 24 };
static struct type t65 = { .type = TY_STRUCT, .struct_data = &t65d };
static struct field t66f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t35, .bitfield = -1, .offset = 8 }, { .type = &t35, .bitfield = -1, .offset = 16 } };
static struct struct_data t66d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t66f, .alignment = 8, .size = 24 };
static struct type t66 = { .type = TY_STRUCT, .struct_data = &t66d };
static struct field t67f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t35, .bitfield = -1, .offset = 8 }, { .type = &t37, .bitfield = -1, .offset = 16 } };
static struct struct_data t67d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t67f, .alignment = 8, .size = 24 };
static struct type t67 = { .type = TY_STRUCT, .struct_data = &t67d };
static struct field t68f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t35, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t68d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t68f, .alignment = 8, .size = 24 };
static struct type t68 = { .type = TY_STRUCT, .struct_data = &t68d };
static struct field t69f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t35, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t69d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t69f, .alignment = 8, .size = 24 };
static struct type t69 = { .type = TY_STRUCT, .struct_data = &t69d };
static struct field t70f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 4 } };
static struct struct_data t70d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t70f, .alignment = 4, .size = 8 };
static struct type t70 = { .type = TY_STRUCT, .struct_data = &t70d };
static struct type t71 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t37 } };
static struct field t72f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t71, .bitfield = -1, .offset = 0 } };
static struct struct_data t72d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t72f, .alignment = 4, .size = 20 };
static struct type t72 = { .type = TY_STRUCT, .struct_data = &t72d };
static struct field t73f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 8 } };
static struct struct_data t73d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t73f, .alignment = 4, .size = 12 };
static struct type t73 = { .type = TY_STRUCT, .struct_data = &t73d };
static struct field t74f[] = { { .type = &t37, .bitfield = -1, .offset = 0 }, { .type = &t70, .bitfield = -1, .offset = 4 } };
static struct struct_data t74d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t74f, .alignment = 4, .size = 12 };
static struct type t74 = { .type = TY_STRUCT, .struct_data = &t74d };
static struct type t75 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t70 } };
static struct field t76f[] = { { .type = &t75, .bitfield = -1, .offset = 0 } };
static struct struct_data t76d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t76f, .alignment = 4, .size = 16 };
static struct type t76 = { .type = TY_STRUCT, .struct_data = &t76d };
static struct field t77f[] = { { .type = &t37, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t77d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t77f, .alignment = 4, .size = 12 };
static struct type t77 = { .type = TY_STRUCT, .struct_data = &t77d };
static struct field t78f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 4 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t78d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t78f, .alignment = 4, .size = 12 };
static struct type t78 = { .type = TY_STRUCT, .struct_data = &t78d };
static struct field t79f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 4 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t79d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t79f, .alignment = 4, .size = 12 };
static struct type t79 = { .type = TY_STRUCT, .struct_data = &t79d };
static struct field t80f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 4 }, { .type = &t35, .bitfield = -1, .offset = 8 } };
static struct struct_data t80d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t80f, .alignment = 8, .size = 16 };
static struct type t80 = { .type = TY_STRUCT, .struct_data = &t80d };
static struct field t81f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 4 }, { .type = &t37, .bitfield = -1, .offset = 8 } };
static struct struct_data t81d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t81f, .alignment = 4, .size = 12 };
static struct type t81 = { .type = TY_STRUCT, .struct_data = &t81d };
static struct field t82f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 4 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t82d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t82f, .alignment = 8, .size = 16 };
static struct type t82 = { .type = TY_STRUCT, .struct_data = &t82d };
static struct field t83f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 4 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t83d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t83f, .alignment = 8, .size = 16 };
static struct type t83 = { .type = TY_STRUCT, .struct_data = &t83d };
static struct field t84f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t84d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t84f, .alignment = 8, .size = 16 };
static struct type t84 = { .type = TY_STRUCT, .struct_data = &t84d };
static struct type t85 = { .type = TY_ARRAY, .array.length = 6, .n = 1, .children = { &t39 } };
static struct field t86f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t85, .bitfield = -1, .offset = 0 } };
static struct struct_data t86d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t86f, .alignment = 8, .size = 48 };
static struct type t86 = { .type = TY_STRUCT, .struct_data = &t86d };
static struct field t87f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t87d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t87f, .alignment = 8, .size = 16 };
static struct type t87 = { .type = TY_STRUCT, .struct_data = &t87d };
static struct field t88f[] = { { .type = &t39, .bitfield = -1, .offset = 0 }, { .type = &t84, .bitfield = -1, .offset = 8 } };
static struct struct_data t88d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t88f, .alignment = 8, .size = 24 };
static struct type t88 = { .type = TY_STRUCT, .struct_data = &t88d };
static struct type t89 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t84 } };
static struct field t90f[] = { { .type = &t89, .bitfield = -1, .offset = 0 } };
static struct struct_data t90d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t90f, .alignment = 8, .size = 32 };
static struct type t90 = { .type = TY_STRUCT, .struct_data = &t90d };
static struct field t91f[] = { { .type = &t39, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t91d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t91f, .alignment = 8, .size = 16 };
static struct type t91 = { .type = TY_STRUCT, .struct_data = &t91d };
static struct field t92f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t92d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t92f, .alignment = 8, .size = 24 };
static struct type t92 = { .type = TY_STRUCT, .struct_data = &t92d };
static struct field t93f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t93d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t93f, .alignment = 8, .size = 24 };
static struct type t93 = { .type = TY_STRUCT, .struct_data = &t93d };
static struct field t94f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t35, .bitfield = -1, .offset = 16 } };
static struct struct_data t94d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t94f, .alignment = 8, .size = 24 };
static struct type t94 = { .type = TY_STRUCT, .struct_data = &t94d };
static struct field t95f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t37, .bitfield = -1, .offset = 16 } };
static struct struct_data t95d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t95f, .alignment = 8, .size = 24 };
static struct type t95 = { .type = TY_STRUCT, .struct_data = &t95d };
static struct field t96f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t96d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t96f, .alignment = 8, .size = 24 };
static struct type t96 = { .type = TY_STRUCT, .struct_data = &t96d };
static struct field t97f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t97d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t97f, .alignment = 8, .size = 24 };
static struct type t97 = { .type = TY_STRUCT, .struct_data = &t97d };
static struct field t98f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t98d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t98f, .alignment = 8, .size = 16 };
static struct type t98 = { .type = TY_STRUCT, .struct_data = &t98d };
static struct type t99 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t41 } };
static struct field t100f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t99, .bitfield = -1, .offset = 0 } };
static struct struct_data t100d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t100f, .alignment = 8, .size = 56 };
static struct type t100 = { .type = TY_STRUCT, .struct_data = &t100d };
static struct field t101f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t101d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t101f, .alignment = 8, .size = 16 };
static struct type t101 = { .type = TY_STRUCT, .struct_data = &t101d };
static struct field t102f[] = { { .type = &t41, .bitfield = -1, .offset = 0 }, { .type = &t98, .bitfield = -1, .offset = 8 } };
static struct struct_data t102d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t102f, .alignment = 8, .size = 24 };
static struct type t102 = { .type = TY_STRUCT, .struct_data = &t102d };
static struct type t103 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t98 } };
static struct field t104f[] = { { .type = &t103, .bitfield = -1, .offset = 0 } };
static struct struct_data t104d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t104f, .alignment = 8, .size = 32 };
static struct type t104 = { .type = TY_STRUCT, .struct_data = &t104d };
static struct field t105f[] = { { .type = &t41, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t105d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t105f, .alignment = 8, .size = 16 };
static struct type t105 = { .type = TY_STRUCT, .struct_data = &t105d };
static struct field t106f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t106d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t106f, .alignment = 8, .size = 24 };
static struct type t106 = { .type = TY_STRUCT, .struct_data = &t106d };
static struct field t107f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t107d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t107f, .alignment = 8, .size = 24 };
static struct type t107 = { .type = TY_STRUCT, .struct_data = &t107d };
static struct field t108f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t35, .bitfield = -1, .offset = 16 } };
static struct struct_data t108d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t108f, .alignment = 8, .size = 24 };
static struct type t108 = { .type = TY_STRUCT, .struct_data = &t108d };
static struct field t109f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t37, .bitfield = -1, .offset = 16 } };
static struct struct_data t109d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t109f, .alignment = 8, .size = 24 };
static struct type t109 = { .type = TY_STRUCT, .struct_data = &t109d };
static struct field t110f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t110d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t110f, .alignment = 8, .size = 24 };
static struct type t110 = { .type = TY_STRUCT, .struct_data = &t110d };
static struct field t111f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t111d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t111f, .alignment = 8, .size = 24 };
static struct type t111 = { .type = TY_STRUCT, .struct_data = &t111d };
static const struct row rows[] = {
{ &t0, 4, 1, { P_GP } },
{ &t1, 4, 1, { P_GP } },
{ &t3, 4, 1, { P_GP } },
{ &t5, 8, 1, { P_GP } },
{ &t7, 12, 2, { P_GP, P_GP } },
{ &t9, 16, 2, { P_GP, P_GP } },
{ &t11, 20, 1, { P_MEM } },
{ &t13, 28, 1, { P_MEM } },
{ &t15, 32, 1, { P_MEM } },
{ &t17, 36, 1, { P_MEM } },
{ &t19, 52, 1, { P_MEM } },
{ &t21, 64, 1, { P_MEM } },
{ &t23, 68, 1, { P_MEM } },
{ &t25, 8, 1, { P_GP } },
{ &t27, 4, 1, { P_GP } },
{ &t28, 12, 2, { P_GP, P_GP } },
{ &t29, 12, 2, { P_GP, P_GP } },
{ &t31, 16, 2, { P_GP, P_GP } },
{ &t32, 12, 2, { P_GP, P_GP } },
{ &t33, 8, 1, { P_GP } },
{ &t34, 12, 2, { P_GP, P_GP } },
{ &t36, 16, 2, { P_GP, P_GP } },
{ &t38, 12, 2, { P_GP, P_SSE } },
{ &t40, 16, 2, { P_GP, P_SSE } },
{ &t42, 16, 2, { P_GP, P_GP } },
{ &t43, 8, 1, { P_GP } },
{ &t44, 12, 2, { P_GP, P_GP } },
{ &t45, 12, 2, { P_GP, P_GP } },
{ &t46, 12, 2, { P_GP, P_GP } },
{ &t48, 16, 2, { P_GP, P_GP } },
{ &t49, 12, 2, { P_GP, P_GP } },
{ &t50, 12, 2, { P_GP, P_GP } },
{ &t51, 12, 2, { P_GP, P_GP } },
{ &t52, 16, 2, { P_GP, P_GP } },
{ &t53, 12, 2, { P_GP, P_SSE } },
{ &t54, 16, 2, { P_GP, P_SSE } },
{ &t55, 16, 2, { P_GP, P_GP } },
{ &t56, 16, 2, { P_GP, P_GP } },
{ &t58, 32, 1, { P_MEM } },
{ &t59, 16, 2, { P_GP, P_GP } },
{ &t60, 24, 1, { P_MEM } },
{ &t62, 32, 1, { P_MEM } },
{ &t63, 16, 2, { P_GP, P_GP } },
{ &t64, 24, 1, { P_MEM } },
{ &t65, 24, 1, { P_MEM } },
{ &t66, 24, 1, { P_MEM } },
{ &t67, 24, 1, { P_MEM } },
{ &t68, 24, 1, { P_MEM } },
{ &t69, 24, 1, { P_MEM } },
{ &t70, 8, 1, { P_GP } },
{ &t72, 20, 1, { P_MEM } },
{ &t73, 12, 2, { P_GP, P_SSE } },
{ &t74, 12, 2, { P_GP, P_SSE } },
{ &t76, 16, 2, { P_GP, P_GP } },
{ &t77, 12, 2, { P_GP, P_GP } },
{ &t78, 12, 2, { P_GP, P_GP } },
{ &t79, 12, 2, { P_GP, P_GP } },
{ &t80, 16, 2, { P_GP, P_GP } },
{ &t81, 12, 2, { P_GP, P_SSE } },
{ &t82, 16, 2, { P_GP, P_SSE } },
{ &t83, 16, 2, { P_GP, P_GP } },
{ &t84, 16, 2, { P_GP, P_SSE } },
{ &t86, 48, 1, { P_MEM } },
{ &t87, 16, 2, { P_GP, P_SSE } },
{ &t88, 24, 1, { P_MEM } },
{ &t90, 32, 1, { P_MEM } },
{ &t91, 16, 2, { P_SSE, P_GP } },
{ &t92, 24, 1, { P_MEM } },
{ &t93, 24, 1, { P_MEM } },
{ &t94, 24, 1, { P_MEM } },
{ &t95, 24, 1, { P_MEM } },
{ &t96, 24, 1, { P_MEM } },
{ &t97, 24, 1, { P_MEM } },
{ &t98, 16, 2, { P_GP, P_GP } },
{ &t100, 56, 1, { P_MEM } },
{ &t101, 16, 2, { P_GP, P_GP } },
{ &t102, 24, 1, { P_MEM } },
{ &t104, 32, 1, { P_MEM } },
{ &t105, 16, 2, { P_GP, P_GP } },
{ &t106, 24, 1, { P_MEM } },
{ &t107, 24, 1, { P_MEM } },
{ &t108, 24, 1, { P_MEM } },
{ &t109, 24, 1, { P_MEM } },
{ &t110, 24, 1, { P_MEM } },
{ &t111, 24, 1, { P_MEM } }
};
#elif CLASSIFY == 3
static struct type t0 = { .type = TY_SIMPLE, .simple = ST_LONG };
static struct field t1f[] = { { .type = &t0, .bitfield = -1, .offset = 0 } };
static struct struct_data t1d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t1f, .alignment = 8, .size = 8 };
static struct type t1 = { .type = TY_STRUCT, .struct_data = &t1d };
static struct type t2 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t0 } };
static struct field t3f[] = { { .type = &t2, .bitfield = -1, .offset = 0 } };
static struct struct_data t3d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t3f, .alignment = 8, .size = 8 };
static struct type t3 = { .type = TY_STRUCT, .struct_data = &t3d };
static struct type t4 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t0 } };
static struct field t5f[] = { { .type = &t4, .bitfield = -1, .offset = 0 } };
static struct struct_data t5d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t5f, .alignment = 8, .size = 16 };
static struct type t5 = { .type = TY_STRUCT, .struct_data = &t5d };
static struct type t6 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t0 } };
static struct field t7f[] = { { .type = &t6, .bitfield = -1, .offset = 0 } };
static struct struct_data t7d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t7f, .alignment = 8, .size = 24 };
static struct type t7 = { .type = TY_STRUCT, .struct_data = &t7d };
static struct type t8 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t0 } };
static struct field t9f[] = { { .type = &t8, .bitfield = -1, .offset = 0 } };
static struct struct_data t9d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t9f, .alignment = 8, .size = 32 };
static struct type t9 = { .type = TY_STRUCT, .struct_data = &t9d };
static struct type t10 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t0 } };
static struct field t11f[] = { { .type = &t10, .bitfield = -1, .offset = 0 } };
static struct struct_data t11d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t11f, .alignment = 8, .size = 40 };
static struct type t11 = { .type = TY_STRUCT, .struct_data = &t11d };
static struct type t12 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t0 } };
static struct field t13f[] = { { .type = &t12, .bitfield = -1, .offset = 0 } };
static struct struct_data t13d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t13f, .alignment = 8, .size = 56 };
static struct type t13 = { .type = TY_STRUCT, .struct_data = &t13d };
static struct type t14 = { .type = TY_ARRAY, .array.length = 8, .n = 1, .children = { &t0 } };
static struct field t15f[] = { { .type = &t14, .bitfield = -1, .offset = 0 } };
static struct struct_data t15d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t15f, .alignment = 8, .size = 64 };
static struct type t15 = { .type = TY_STRUCT, .struct_data = &t15d };
static struct type t16 = { .type = TY_ARRAY, .array.length = 9, .n = 1, .children = { &t0 } };
static struct field t17f[] = { { .type = &t16, .bitfield = -1, .offset = 0 } };
static struct struct_data t17d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t17f, .alignment = 8, .size = 72 };
static struct type t17 = { .type = TY_STRUCT, .struct_data = &t17d };
static struct type t18 = { .type = TY_ARRAY, .array.length = 13, .n = 1, .children = { &t0 } };
static struct field t19f[] = { { .type = &t18, .bitfield = -1, .offset = 0 } };
static struct struct_data t19d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t19f, .alignment = 8, .size = 104 };
static struct type t19 = { .type = TY_STRUCT, .struct_data = &t19d };
static struct type t20 = { .type = TY_ARRAY, .array.length = 16, .n = 1, .children = { &t0 } };
static struct field t21f[] = { { .type = &t20, .bitfield = -1, .offset = 0 } };
static struct struct_data t21d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t21f, .alignment = 8, .size = 128 };
static struct type t21 = { .type = TY_STRUCT, .struct_data = &t21d };
static struct type t22 = { .type = TY_ARRAY, .array.length = 17, .n = 1, .children = { &t0 } };
static struct field t23f[] = { { .type = &t22, .bitfield = -1, .offset = 0 } };
static struct struct_data t23d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t23f, .alignment = 8, .size = 136 };
static struct type t23 = { .type = TY_STRUCT, .struct_data = &t23d };
static struct type t24 = { .type = TY_SIMPLE, .simple = ST_CHAR };
static struct field t25f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t25d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t25f, .alignment = 8, .size = 16 };
static struct type t25 = { .type = TY_STRUCT, .struct_data = &t25d };
static struct type t26 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t24 } };
static struct field t27f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t26, .bitfield = -1, .offset = 0 } };
static struct struct_data t27d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t27f, .alignment = 8, .size = 8 };
static struct type t27 = { .type = TY_STRUCT, .struct_data = &t27d };
static struct field t28f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t28d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t28f, .alignment = 8, .size = 24 };
static struct type t28 = { .type = TY_STRUCT, .struct_data = &t28d };
static struct field t29f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t25, .bitfield = -1, .offset = 8 } };
static struct struct_data t29d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t29f, .alignment = 8, .size = 24 };
static struct type t29 = { .type = TY_STRUCT, .struct_data = &t29d };
static struct type t30 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t25 } };
static struct field t31f[] = { { .type = &t30, .bitfield = -1, .offset = 0 } };
static struct struct_data t31d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t31f, .alignment = 8, .size = 32 };
static struct type t31 = { .type = TY_STRUCT, .struct_data = &t31d };
static struct field t32f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t32d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t32f, .alignment = 8, .size = 24 };
static struct type t32 = { .type = TY_STRUCT, .struct_data = &t32d };
static struct field t33f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 9 } };
static struct struct_data t33d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t33f, .alignment = 8, .size = 16 };
static struct type t33 = { .type = TY_STRUCT, .struct_data = &t33d };
static struct type t34 = { .type = TY_SIMPLE, .simple = ST_INT };
static struct field t35f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 12 } };
static struct struct_data t35d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t35f, .alignment = 8, .size = 16 };
static struct type t35 = { .type = TY_STRUCT, .struct_data = &t35d };
static struct field t36f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t36d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t36f, .alignment = 8, .size = 24 };
static struct type t36 = { .type = TY_STRUCT, .struct_data = &t36d };
static struct type t37 = { .type = TY_SIMPLE, .simple = ST_FLOAT };
static struct field t38f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t37, .bitfield = -1, .offset = 12 } };
static struct struct_data t38d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t38f, .alignment = 8, .size = 16 };
static struct type t38 = { .type = TY_STRUCT, .struct_data = &t38d };
static struct type t39 = { .type = TY_SIMPLE, .simple = ST_DOUBLE };
static struct field t40f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t40d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t40f, .alignment = 8, .size = 24 };
static struct type t40 = { .type = TY_STRUCT, .struct_data = &t40d };
static struct type t41 = { .type = TY_POINTER, .n = 1, .children = { &t24 } };
static struct field t42f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t42d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t42f, .alignment = 8, .size = 24 };
static struct type t42 = { .type = TY_STRUCT, .struct_data = &t42d };
static struct field t43f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t43d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t43f, .alignment = 8, .size = 16 };
static struct type t43 = { .type = TY_STRUCT, .struct_data = &t43d };
static struct type t44 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t34 } };
static struct field t45f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t44, .bitfield = -1, .offset = 0 } };
static struct struct_data t45d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t45f, .alignment = 8, .size = 16 };
static struct type t45 = { .type = TY_STRUCT, .struct_data = &t45d };
static struct field t46f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t46d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t46f, .alignment = 8, .size = 24 };
static struct type t46 = { .type = TY_STRUCT, .struct_data = &t46d };
static struct field t47f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t43, .bitfield = -1, .offset = 8 } };
static struct struct_data t47d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t47f, .alignment = 8, .size = 24 };
static struct type t47 = { .type = TY_STRUCT, .struct_data = &t47d };
static struct type t48 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t43 } };
static struct field t49f[] = { { .type = &t48, .bitfield = -1, .offset = 0 } };
static struct struct_data t49d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t49f, .alignment = 8, .size = 32 };
static struct type t49 = { .type = TY_STRUCT, .struct_data = &t49d };
static struct field t50f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t50d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t50f, .alignment = 8, .size = 24 };
static struct type t50 = { .type = TY_STRUCT, .struct_data = &t50d };
static struct field t51f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 12 } };
static struct struct_data t51d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t51f, .alignment = 8, .size = 16 };
static struct type t51 = { .type = TY_STRUCT, .struct_data = &t51d };
static struct field t52f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 12 } };
static struct struct_data t52d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t52f, .alignment = 8, .size = 16 };
static struct type t52 = { .type = TY_STRUCT, .struct_data = &t52d };
static struct field t53f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t53d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t53f, .alignment = 8, .size = 24 };
static struct type t53 = { .type = TY_STRUCT, .struct_data = &t53d };
static struct field t54f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t37, .bitfield = -1, .offset = 12 } };
static struct struct_data t54d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t54f, .alignment = 8, .size = 16 };
static struct type t54 = { .type = TY_STRUCT, .struct_data = &t54d };
static struct field t55f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t55d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t55f, .alignment = 8, .size = 24 };
static struct type t55 = { .type = TY_STRUCT, .struct_data = &t55d };
static struct field t56f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t56d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t56f, .alignment = 8, .size = 24 };
static struct type t56 = { .type = TY_STRUCT, .struct_data = &t56d };
static struct field t57f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t57d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t57f, .alignment = 8, .size = 16 };
static struct type t57 = { .type = TY_STRUCT, .struct_data = &t57d };
static struct field t58f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t8, .bitfield = -1, .offset = 0 } };
static struct struct_data t58d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t58f, .alignment = 8, .size = 32 };
static struct type t58 = { .type = TY_STRUCT, .struct_data = &t58d };
static struct field t59f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t59d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t59f, .alignment = 8, .size = 24 };
static struct type t59 = { .type = TY_STRUCT, .struct_data = &t59d };
static struct field t60f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t57, .bitfield = -1, .offset = 8 } };
static struct struct_data t60d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t60f, .alignment = 8, .size = 24 };
static struct type t60 = { .type = TY_STRUCT, .struct_data = &t60d };
static struct type t61 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t57 } };
static struct field t62f[] = { { .type = &t61, .bitfield = -1, .offset = 0 } };
static struct struct_data t62d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t62f, .alignment = 8, .size = 32 };
static struct type t62 = { .type = TY_STRUCT, .struct_data = &t62d };
static struct field t63f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t63d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t63f, .alignment = 8, .size = 24 };
static struct type t63 = { .type = TY_STRUCT, .struct_data = &t63d };
static struct field t64f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t64d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t64f, .alignment = 8, .size = 24 };
static struct type t64 = { .type = TY_STRUCT, .struct_data = &t64d };
static struct field t65f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t65d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t65f, .alignment = 8, .size = 24 };
static struct type t65 = { .type = TY_STRUCT, .struct_data = &t65d };
static struct field t66f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t66d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t66f, .alignment = 8, .size = 24 };
static struct type t66 = { .type = TY_STRUCT, .struct_data = &t66d };
static struct field t67f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t37, .bitfield = -1, .offset = 16 } };
static struct struct_data t67d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t67f, .alignment = 8, .size = 24 };
static struct type t67 = { .type = TY_STRUCT, .struct_data = &t67d };
static struct field t68f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t68d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t68f, .alignment = 8, .size = 24 };
static struct type t68 = { .type = TY_STRUCT, .struct_data = &t68d };
static struct field t69f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t69d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t69f, .alignment = 8, .size = 24 };
static struct type t69 = { .type = TY_STRUCT, .struct_data = &t69d };
static struct field t70f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 8 } };
static struct struct_data t70d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t70f, .alignment = 8, .size = 16 };
static struct type t70 = { .type = TY_STRUCT, .struct_data = &t70d };
static struct type t71 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t37 } };
static struct field t72f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t71, .bitfield = -1, .offset = 0 } };
static struct struct_data t72d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t72f, .alignment = 8, .size = 24 };
static struct type t72 = { .type = TY_STRUCT, .struct_data = &t72d };
static struct field t73f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 16 } };
static struct struct_data t73d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t73f, .alignment = 8, .size = 24 };
static struct type t73 = { .type = TY_STRUCT, .struct_data = &t73d };
static struct field t74f[] = { { .type = &t37, .bitfield = -1, .offset = 0 }, { .type = &t70, .bitfield = -1, .offset = 8 } };
static struct struct_data t74d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t74f, .alignment = 8, .size = 24 };
static struct type t74 = { .type = TY_STRUCT, .struct_data = &t74d };
static struct type t75 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t70 } };
static struct field t76f[] = { { .type = &t75, .bitfield = -1, .offset = 0 } };
static struct struct_data t76d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t76f, .alignment = 8, .size = 32 };
static struct type t76 = { .type = TY_STRUCT, .struct_data = &t76d };
static struct field t77f[] = { { .type = &t37, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t77d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t77f, .alignment = 8, .size = 24 };
static struct type t77 = { .type = TY_STRUCT, .struct_data = &t77d };
static struct field t78f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 12 } };
static struct struct_data t78d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t78f, .alignment = 8, .size = 16 };
static struct type t78 = { .type = TY_STRUCT, .struct_data = &t78d };
static struct field t79f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 12 } };
static struct struct_data t79d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t79f, .alignment = 8, .size = 16 };
static struct type t79 = { .type = TY_STRUCT, .struct_data = &t79d };
static struct field t80f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t80d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t80f, .alignment = 8, .size = 24 };
static struct type t80 = { .type = TY_STRUCT, .struct_data = &t80d };
static struct field t81f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 8 }, { .type = &t37, .bitfield = -1, .offset = 12 } };
static struct struct_data t81d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t81f, .alignment = 8, .size = 16 };
static struct type t81 = { .type = TY_STRUCT, .struct_data = &t81d };
static struct field t82f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t82d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t82f, .alignment = 8, .size = 24 };
static struct type t82 = { .type = TY_STRUCT, .struct_data = &t82d };
static struct field t83f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t37, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t83d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t83f, .alignment = 8, .size = 24 };
static struct type t83 = { .type = TY_STRUCT, .struct_data = &t83d };
static struct field t84f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t84d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t84f, .alignment = 8, .size = 16 };
static struct type t84 = { .type = TY_STRUCT, .struct_data = &t84d };
static struct type t85 = { .type = TY_ARRAY, .array.length = 6, .n = 1, .children = { &t39 } };
static struct field t86f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t85, .bitfield = -1, .offset = 0 } };
static struct struct_data t86d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t86f, .alignment = 8, .size = 48 };
static struct type t86 = { .type = TY_STRUCT, .struct_data = &t86d };
static struct field t87f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t87d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t87f, .alignment = 8, .size = 24 };
static struct type t87 = { .type = TY_STRUCT, .struct_data = &t87d };
static struct field t88f[] = { { .type = &t39, .bitfield = -1, .offset = 0 }, { .type = &t84, .bitfield = -1, .offset = 8 } };
static struct struct_data t88d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t88f, .alignment = 8, .size = 24 };
static struct type t88 = { .type = TY_STRUCT, .struct_data = &t88d };
static struct type t89 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t84 } };
static struct field t90f[] = { { .type = &t89, .bitfield = -1, .offset = 0 } };
static struct struct_data t90d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t90f, .alignment = 8, .size = 32 };
static struct type t90 = { .type = TY_STRUCT, .struct_data = &t90d };
static struct field t91f[] = { { .type = &t39, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t91d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t91f, .alignment = 8, .size = 24 };
static struct type t91 = { .type = TY_STRUCT, .struct_data = &t91d };
static struct field t92f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t92d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t92f, .alignment = 8, .size = 24 };
static struct type t92 = { .type = TY_STRUCT, .struct_data = &t92d };
static struct field t93f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t93d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t93f, .alignment = 8, .size = 24 };
static struct type t93 = { .type = TY_STRUCT, .struct_data = &t93d };
static struct field t94f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t94d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t94f, .alignment = 8, .size = 24 };
static struct type t94 = { .type = TY_STRUCT, .struct_data = &t94d };
static struct field t95f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t37, .bitfield = -1, .offset = 16 } };
static struct struct_data t95d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t95f, .alignment = 8, .size = 24 };
static struct type t95 = { .type = TY_STRUCT, .struct_data = &t95d };
static struct field t96f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t96d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t96f, .alignment = 8, .size = 24 };
static struct type t96 = { .type = TY_STRUCT, .struct_data = &t96d };
static struct field t97f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t97d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t97f, .alignment = 8, .size = 24 };
static struct type t97 = { .type = TY_STRUCT, .struct_data = &t97d };
static struct field t98f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t98d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t98f, .alignment = 8, .size = 16 };
static struct type t98 = { .type = TY_STRUCT, .struct_data = &t98d };
static struct type t99 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t41 } };
static struct field t100f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t99, .bitfield = -1, .offset = 0 } };
static struct struct_data t100d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t100f, .alignment = 8, .size = 56 };
static struct type t100 = { .type = TY_STRUCT, .struct_data = &t100d };
static struct field t101f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t101d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t101f, .alignment = 8, .size = 24 };
static struct type t101 = { .type = TY_STRUCT, .struct_data = &t101d };
static struct field t102f[] = { { .type = &t41, .bitfield = -1, .offset = 0 }, { .type = &t98, .bitfield = -1, .offset = 8 } };
static struct struct_data t102d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t102f, .alignment = 8, .size = 24 };
static struct type t102 = { .type = TY_STRUCT, .struct_data = &t102d };
static struct type t103 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t98 } };
static struct field t104f[] = { { .type = &t103, .bitfield = -1, .offset = 0 } };
static struct struct_data t104d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t104f, .alignment = 8, .size = 32 };
static struct type t104 = { .type = TY_STRUCT, .struct_data = &t104d };
static struct field t105f[] = { { .type = &t41, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t105d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t105f, .alignment = 8, .size = 24 };
static struct type t105 = { .type = TY_STRUCT, .struct_data = &t105d };
static struct field t106f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t106d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t106f, .alignment = 8, .size = 24 };
static struct type t106 = { .type = TY_STRUCT, .struct_data = &t106d };
static struct field t107f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t107d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t107f, .alignment = 8, .size = 24 };
static struct type t107 = { .type = TY_STRUCT, .struct_data = &t107d };
static struct field t108f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t108d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t108f, .alignment = 8, .size = 24 };
static struct type t108 = { .type = TY_STRUCT, .struct_data = &t108d };
static struct field t109f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t37, .bitfield = -1, .offset = 16 } };
static struct struct_data t109d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t109f, .alignment = 8, .size = 24 };
static struct type t109 = { .type = TY_STRUCT, .struct_data = &t109d };
static struct field t110f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t110d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t110f, .alignment = 8, .size = 24 };
static struct type t110 = { .type = TY_STRUCT, .struct_data = &t110d };
static struct field t111f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t111d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t111f, .alignment = 8, .size = 24 };
static struct type t111 = { .type = TY_STRUCT, .struct_data = &t111d };
static const struct row rows[] = {
{ &t0, 8, 1, { P_GP } },
{ &t1, 8, 1, { P_GP } },
{ &t3, 8, 1, { P_GP } },
{ &t5, 16, 2, { P_GP, P_GP } },
{ &t7, 24, 1, { P_MEM } },
{ &t9, 32, 1, { P_MEM } },
{ &t11, 40, 1, { P_MEM } },
{ &t13, 56, 1, { P_MEM } },
{ &t15, 64, 1, { P_MEM } },
{ &t17, 72, 1, { P_MEM } },
{ &t19, 104, 1, { P_MEM } },
{ &t21, 128, 1, { P_MEM } },
{ &t23, 136, 1, { P_MEM } },
{ &t25, 16, 2, { P_GP, P_GP } },
{ &t27, 8, 1, { P_GP } },
{ &t28, 24, 1, { P_MEM } },
{ &t29, 24, 1, { P_MEM } },
{ &t31, 32, 1, { P_MEM } },
{ &t32, 24, 1, { P_MEM } },
{ &t33, 16, 2, { P_GP, P_GP } },
{ &t35, 16, 2, { P_GP, P_GP } },
{ &t36, 24, 1, { P_MEM } },
{ &t38, 16, 2, { P_GP, P_GP } },
{ &t40, 24, 1, { P_MEM } },
{ &t42, 24, 1, { P_MEM } },
{ &t43, 16, 2, { P_GP, P_GP } },
{ &t45, 16, 2, { P_GP, P_GP } },
{ &t46, 24, 1, { P_MEM } },
{ &t47, 24, 1, { P_MEM } },
{ &t49, 32, 1, { P_MEM } },
{ &t50, 24, 1, { P_MEM } },
{ &t51, 16, 2, { P_GP, P_GP } },
{ &t52, 16, 2, { P_GP, P_GP } },
{ &t53, 24, 1, { P_MEM } },
{ &t54, 16, 2, { P_GP, P_GP } },
{ &t55, 24, 1, { P_MEM } },
{ &t56, 24, 1, { P_MEM } },
{ &t57, 16, 2, { P_GP, P_GP } },
{ &t58, 32, 1, { P_MEM } },
{ &t59, 24, 1, { P_MEM } },
{ &t60, 24, 1, { P_MEM } },
{ &t62, 32, 1, { P_MEM } },
{ &t63, 24, 1, { P_MEM } },
{ &t64, 24, 1, { P_MEM } },
{ &t65, 24, 1, { P_MEM } },
{ &t66, 24, 1, { P_MEM } },
{ &t67, 24, 1, { P_MEM } },
{ &t68, 24, 1, { P_MEM } },
{ &t69, 24, 1, { P_MEM } },
{ &t70, 16, 2, { P_GP, P_SSE } },
{ &t72, 24, 1, { P_MEM } },
{ &t73, 24, 1, { P_MEM } },
{ &t74, 24, 1, { P_MEM } },
{ &t76, 32, 1, { P_MEM } },
{ &t77, 24, 1, { P_MEM } },
{ &t78, 16, 2, { P_GP, P_GP } },
{ &t79, 16, 2, { P_GP, P_GP } },
{ &t80, 24, 1, { P_MEM } },
{ &t81, 16, 2, { P_GP, P_SSE } },
{ &t82, 24, 1, { P_MEM } },
{ &t83, 24, 1, { P_MEM } },
{ &t84, 16, 2, { P_GP, P_SSE } },
{ &t86, 48, 1, { P_MEM } },
{ &t87, 24, 1, { P_MEM } },
{ &t88, 24, 1, { P_MEM } },
{ &t90, 32, 1, { P_MEM } },
{ &t91, 24, 1, { P_MEM } },
{ &t92, 24, 1, { P_MEM } },
{ &t93, 24, 1, { P_MEM } },
{ &t94, 24, 1, { P_MEM } },
{ &t95, 24, 1, { P_MEM } },
{ &t96, 24, 1, { P_MEM } },
{ &t97, 24, 1, { P_MEM } },
{ &t98, 16, 2, { P_GP, P_GP } },
{ &t100, 56, 1, { P_MEM } },
{ &t101, 24, 1, { P_MEM } },
{ &t102, 24, 1, { P_MEM } },
{ &t104, 32, 1, { P_MEM } },
{ &t105, 24, 1, { P_MEM } },
{ &t106, 24, 1, { P_MEM } },
{ &t107, 24, 1, { P_MEM } },
{ &t108, 24, 1, { P_MEM } },
{ &t109, 24, 1, { P_MEM } },
{ &t110, 24, 1, { P_MEM } },
{ &t111, 24, 1, { P_MEM } }
};
#elif CLASSIFY == 4
static struct type t0 = { .type = TY_SIMPLE, .simple = ST_FLOAT };
static struct field t1f[] = { { .type = &t0, .bitfield = -1, .offset = 0 } };
static struct struct_data t1d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t1f, .alignment = 4, .size = 4 };
static struct type t1 = { .type = TY_STRUCT, .struct_data = &t1d };
static struct type t2 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t0 } };
static struct field t3f[] = { { .type = &t2, .bitfield = -1, .offset = 0 } };
static struct struct_data t3d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t3f, .alignment = 4, .size = 4 };
static struct type t3 = { .type = TY_STRUCT, .struct_data = &t3d };
static struct type t4 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t0 } };
static struct field t5f[] = { { .type = &t4, .bitfield = -1, .offset = 0 } };
static struct struct_data t5d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t5f, .alignment = 4, .size = 8 };
static struct type t5 = { .type = TY_STRUCT, .struct_data = &t5d };
static struct type t6 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t0 } };
static struct field t7f[] = { { .type = &t6, .bitfield = -1, .offset = 0 } };
static struct struct_data t7d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t7f, .alignment = 4, .size = 12 };
static struct type t7 = { .type = TY_STRUCT, .struct_data = &t7d };
static struct type t8 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t0 } };
static struct field t9f[] = { { .type = &t8, .bitfield = -1, .offset = 0 } };
static struct struct_data t9d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t9f, .alignment = 4, .size = 16 };
static struct type t9 = { .type = TY_STRUCT, .struct_data = &t9d };
static struct type t10 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t0 } };
static struct field t11f[] = { { .type = &t10, .bitfield = -1, .offset = 0 } };
static struct struct_data t11d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t11f, .alignment = 4, .size = 20 };
static struct type t11 = { .type = TY_STRUCT, .struct_data = &t11d };
static struct type t12 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t0 } };
static struct field t13f[] = { { .type = &t12, .bitfield = -1, .offset = 0 } };
static struct struct_data t13d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t13f, .alignment = 4, .size = 28 };
static struct type t13 = { .type = TY_STRUCT, .struct_data = &t13d };
static struct type t14 = { .type = TY_ARRAY, .array.length = 8, .n = 1, .children = { &t0 } };
static struct field t15f[] = { { .type = &t14, .bitfield = -1, .offset = 0 } };
static struct struct_data t15d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t15f, .alignment = 4, .size = 32 };
static struct type t15 = { .type = TY_STRUCT, .struct_data = &t15d };
static struct type t16 = { .type = TY_ARRAY, .array.length = 9, .n = 1, .children = { &t0 } };
static struct field t17f[] = { { .type = &t16, .bitfield = -1, .offset = 0 } };
static struct struct_data t17d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t17f, .alignment = 4, .size = 36 };
static struct type t17 = { .type = TY_STRUCT, .struct_data = &t17d };
static struct type t18 = { .type = TY_ARRAY, .array.length = 13, .n = 1, .children = { &t0 } };
static struct field t19f[] = { { .type = &t18, .bitfield = -1, .offset = 0 } };
static struct struct_data t19d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t19f, .alignment = 4, .size = 52 };
static struct type t19 = { .type = TY_STRUCT, .struct_data = &t19d };
static struct type t20 = { .type = TY_ARRAY, .array.length = 16, .n = 1, .children = { &t0 } };
static struct field t21f[] = { { .type = &t20, .bitfield = -1, .offset = 0 } };
static struct struct_data t21d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t21f, .alignment = 4, .size = 64 };
static struct type t21 = { .type = TY_STRUCT, .struct_data = &t21d };
static struct type t22 = { .type = TY_ARRAY, .array.length = 17, .n = 1, .children = { &t0 } };
static struct field t23f[] = { { .type = &t22, .bitfield = -1, .offset = 0 } };
static struct struct_data t23d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t23f, .alignment = 4, .size = 68 };
static struct type t23 = { .type = TY_STRUCT, .struct_data = &t23d };
static struct type t24 = { .type = TY_SIMPLE, .simple = ST_CHAR };
static struct field t25f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 } };
static struct struct_data t25d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t25f, .alignment = 4, .size = 8 };
static struct type t25 = { .type = TY_STRUCT, .struct_data = &t25d };
static struct type t26 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t24 } };
static struct field t27f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t26, .bitfield = -1, .offset = 0 } };
static struct struct_data t27d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t27f, .alignment = 4, .size = 4 };
static struct type t27 = { .type = TY_STRUCT, .struct_data = &t27d };
static struct field t28f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t28d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t28f, .alignment = 4, .size = 12 };
static struct type t28 = { .type = TY_STRUCT, .struct_data = &t28d };
static struct field t29f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t25, .bitfield = -1, .offset = 4 } };
static struct struct_data t29d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t29f, .alignment = 4, .size = 12 };
static struct type t29 = { .type = TY_STRUCT, .struct_data = &t29d };
static struct type t30 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t25 } };
static struct field t31f[] = { { .type = &t30, .bitfield = -1, .offset = 0 } };
static struct struct_data t31d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t31f, .alignment = 4, .size = 16 };
static struct type t31 = { .type = TY_STRUCT, .struct_data = &t31d };
static struct field t32f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t32d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t32f, .alignment = 4, .size = 12 };
static struct type t32 = { .type = TY_STRUCT, .struct_data = &t32d };
static struct field t33f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t24, .bitfield = -1, .offset = 5 } };
static struct struct_data t33d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t33f, .alignment = 4, .size = 8 };
static struct type t33 = { .type = TY_STRUCT, .struct_data = &t33d };
static struct type t34 = { .type = TY_SIMPLE, .simple = ST_INT };
static struct field t35f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t35d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t35f, .alignment = 4, .size = 12 };
static struct type t35 = { .type = TY_STRUCT, .struct_data = &t35d };
static struct type t36 = { .type = TY_SIMPLE, .simple = ST_LONG };
static struct field t37f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t37d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t37f, .alignment = 8, .size = 16 };
static struct type t37 = { .type = TY_STRUCT, .struct_data = &t37d };
static struct field t38f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t38d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t38f, .alignment = 4, .size = 12 };
static struct type t38 = { .type = TY_STRUCT, .struct_data = &t38d };
static struct type t39 = { .type = TY_SIMPLE, .simple = ST_DOUBLE };
static struct field t40f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t40d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t40f, .alignment = 8, .size = 16 };
static struct type t40 = { .type = TY_STRUCT, .struct_data = &t40d };
static struct type t41 = { .type = TY_POINTER, .n = 1, .children = { &t24 } };
static struct field t42f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 4 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t42d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t42f, .alignment = 8, .size = 16 };
static struct type t42 = { .type = TY_STRUCT, .struct_data = &t42d };
static struct field t43f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 } };
static struct struct_data t43d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t43f, .alignment = 4, .size = 8 };
static struct type t43 = { .type = TY_STRUCT, .struct_data = &t43d };
static struct type t44 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t34 } };
static struct field t45f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t44, .bitfield = -1, .offset = 0 } };
static struct struct_data t45d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t45f, .alignment = 4, .size = 12 };
static struct type t45 = { .type = TY_STRUCT, .struct_data = &t45d };
static struct field t46f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t46d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t46f, .alignment = 4, .size = 12 };
static struct type t46 = { .type = TY_STRUCT, .struct_data = &t46d };
static struct field t47f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t43, .bitfield = -1, .offset = 4 } };
static struct struct_data t47d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t47f, .alignment = 4, .size = 12 };
static struct type t47 = { .type = TY_STRUCT, .struct_data = &t47d };
static struct type t48 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t43 } };
static struct field t49f[] = { { .type = &t48, .bitfield = -1, .offset = 0 } };
static struct struct_data t49d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t49f, .alignment = 4, .size = 16 };
static struct type t49 = { .type = TY_STRUCT, .struct_data = &t49d };
static struct field t50f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t50d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t50f, .alignment = 4, .size = 12 };
static struct type t50 = { .type = TY_STRUCT, .struct_data = &t50d };
static struct field t51f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t51d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t51f, .alignment = 4, .size = 12 };
static struct type t51 = { .type = TY_STRUCT, .struct_data = &t51d };
static struct field t52f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t52d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t52f, .alignment = 4, .size = 12 };
static struct type t52 = { .type = TY_STRUCT, .struct_data = &t52d };
static struct field t53f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t53d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t53f, .alignment = 8, .size = 16 };
static struct type t53 = { .type = TY_STRUCT, .struct_data = &t53d };
static struct field t54f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t54d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t54f, .alignment = 4, .size = 12 };
static struct type t54 = { .type = TY_STRUCT, .struct_data = &t54d };
static struct field t55f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t55d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t55f, .alignment = 8, .size = 16 };
static struct type t55 = { .type = TY_STRUCT, .struct_data = &t55d };
static struct field t56f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t56d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t56f, .alignment = 8, .size = 16 };
static struct type t56 = { .type = TY_STRUCT, .struct_data = &t56d };
static struct field t57f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t57d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t57f, .alignment = 8, .size = 16 };
static struct type t57 = { .type = TY_STRUCT, .struct_data = &t57d };
static struct type t58 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t36 } };
static struct field t59f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t58, .bitfield = -1, .offset = 0 } };
static struct struct_data t59d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t59f, .alignment = 8, .size = 32 };
static struct type t59 = { .type = TY_STRUCT, .struct_data = &t59d };
static struct field t60f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t60d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t60f, .alignment = 8, .size = 16 };
static struct type t60 = { .type = TY_STRUCT, .struct_data = &t60d };
static struct field t61f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t57, .bitfield = -1, .offset = 8 } };
static struct struct_data t61d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t61f, .alignment = 8, .size = 24 };
static struct type t61 = { .type = TY_STRUCT, .struct_data = &t61d };
static struct type t62 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t57 } };
static struct field t63f[] = { { .type = &t62, .bitfield = -1, .offset = 0 } };
static struct struct_data t63d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t63f, .alignment = 8, .size = 32 };
static struct type t63 = { .type = TY_STRUCT, .struct_data = &t63d };
static struct field t64f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t64d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t64f, .alignment = 8, .size = 16 };
static struct type t64 = { .type = TY_STRUCT, .struct_data = &t64d };
static struct field t65f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t65d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t65f, .alignment = 8, .size = 24 };
static struct type t65 = { .type = TY_STRUCT, .struct_data = &t65d };
static struct field t66f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t66d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t66f, .alignment = 8, .size = 24 };
static struct type t66 = { .type = TY_STRUCT, .struct_data = &t66d };
static struct field t67f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t67d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t67f, .alignment = 8, .size = 24 };
static struct type t67 = { .type = TY_STRUCT, .struct_data = &t67d };
static struct field t68f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t68d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t68f, .alignment = 8, .size = 24 };
static struct type t68 = { .type = TY_STRUCT, .struct_data = &t68d };
static struct field t69f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t69d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t69f, .alignment = 8, .size = 24 };
static struct type t69 = { .type = TY_STRUCT, .struct_data = &t69d };
static struct field t70f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t70d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t70f, .alignment = 8, .size = 24 };
static struct type t70 = { .type = TY_STRUCT, .struct_data = &t70d };
static struct field t71f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 } };
static struct struct_data t71d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t71f, .alignment = 4, .size = 8 };
static struct type t71 = { .type = TY_STRUCT, .struct_data = &t71d };
static struct field t72f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t10, .bitfield = -1, .offset = 0 } };
static struct struct_data t72d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t72f, .alignment = 4, .size = 20 };
static struct type t72 = { .type = TY_STRUCT, .struct_data = &t72d };
static struct field t73f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t73d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t73f, .alignment = 4, .size = 12 };
static struct type t73 = { .type = TY_STRUCT, .struct_data = &t73d };
static struct field t74f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t71, .bitfield = -1, .offset = 4 } };
static struct struct_data t74d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t74f, .alignment = 4, .size = 12 };
static struct type t74 = { .type = TY_STRUCT, .struct_data = &t74d };
static struct type t75 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t71 } };
static struct field t76f[] = { { .type = &t75, .bitfield = -1, .offset = 0 } };
static struct struct_data t76d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t76f, .alignment = 4, .size = 16 };
static struct type t76 = { .type = TY_STRUCT, .struct_data = &t76d };
static struct field t77f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t77d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t77f, .alignment = 4, .size = 12 };
static struct type t77 = { .type = TY_STRUCT, .struct_data = &t77d };
static struct field t78f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t78d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t78f, .alignment = 4, .size = 12 };
static struct type t78 = { .type = TY_STRUCT, .struct_data = &t78d };
static struct field t79f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t79d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t79f, .alignment = 4, .size = 12 };
static struct type t79 = { .type = TY_STRUCT, .struct_data = &t79d };
static struct field t80f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t80d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t80f, .alignment = 8, .size = 16 };
static struct type t80 = { .type = TY_STRUCT, .struct_data = &t80d };
static struct field t81f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t81d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t81f, .alignment = 4, .size = 12 };
static struct type t81 = { .type = TY_STRUCT, .struct_data = &t81d };
static struct field t82f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t82d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t82f, .alignment = 8, .size = 16 };
static struct type t82 = { .type = TY_STRUCT, .struct_data = &t82d };
static struct field t83f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 4 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t83d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t83f, .alignment = 8, .size = 16 };
static struct type t83 = { .type = TY_STRUCT, .struct_data = &t83d };
static struct field t84f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t84d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t84f, .alignment = 8, .size = 16 };
static struct type t84 = { .type = TY_STRUCT, .struct_data = &t84d };
static struct type t85 = { .type = TY_ARRAY, .array.length = 6, .n = 1, .children = { &t39 } };
static struct field t86f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t85, .bitfield = -1, .offset = 0 } };
static struct struct_data t86d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t86f, .alignment = 8, .size = 48 };
static struct type t86 = { .type = TY_STRUCT, .struct_data = &t86d };
static struct field t87f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 } };
static struct struct_data t87d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t87f, .alignment = 8, .size = 16 };
static struct type t87 = { .type = TY_STRUCT, .struct_data = &t87d };
static struct field t88f[] = { { .type = &t39, .bitfield = -1, .offset = 0 }, { .type = &t84, .bitfield = -1, .offset = 8 } };
static struct struct_data t88d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t88f, .alignment = 8, .size = 24 };
static struct type t88 = { .type = TY_STRUCT, .struct_data = &t88d };
static struct type t89 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t84 } };
static struct field t90f[] = { { .type = &t89, .bitfield = -1, .offset = 0 } };
static struct struct_data t90d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t90f, .alignment = 8, .size = 32 };
static struct type t90 = { .type = TY_STRUCT, .struct_data = &t90d };
static struct field t91f[] = { { .type = &t39, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t91d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t91f, .alignment = 8, .size = 16 };
static struct type t91 = { .type = TY_STRUCT, .struct_data = &t91d };
static struct field t92f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t92d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t92f, .alignment = 8, .size = 24 };
static struct type t92 = { .type = TY_STRUCT, .struct_data = &t92d };
static struct field t93f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t93d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t93f, .alignment = 8, .size = 24 };
static struct type t93 = { .type = TY_STRUCT, .struct_data = &t93d };
static struct field t94f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t94d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t94f, .alignment = 8, .size = 24 };
static struct type t94 = { .type = TY_STRUCT, .struct_data = &t94d };
static struct field t95f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t95d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t95f, .alignment = 8, .size = 24 };
static struct type t95 = { .type = TY_STRUCT, .struct_data = &t95d };
static struct field t96f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t96d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t96f, .alignment = 8, .size = 24 };
static struct type t96 = { .type = TY_STRUCT, .struct_data = &t96d };
static struct field t97f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t39, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t97d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t97f, .alignment = 8, .size = 24 };
static struct type t97 = { .type = TY_STRUCT, .struct_data = &t97d };
static struct field t98f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t98d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t98f, .alignment = 8, .size = 16 };
static struct type t98 = { .type = TY_STRUCT, .struct_data = &t98d };
static struct type t99 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t41 } };
static struct field t100f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t99, .bitfield = -1, .offset = 0 } };
static struct struct_data t100d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t100f, .alignment = 8, .size = 56 };
static struct type t100 = { .type = TY_STRUCT, .struct_data = &t100d };
static struct field t101f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t101d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t101f, .alignment = 8, .size = 16 };
static struct type t101 = { .type = TY_STRUCT, .struct_data = &t101d };
static struct field t102f[] = { { .type = &t41, .bitfield = -1, .offset = 0 }, { .type = &t98, .bitfield = -1, .offset = 8 } };
static struct struct_data t102d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t102f, .alignment = 8, .size = 24 };
static struct type t102 = { .type = TY_STRUCT, .struct_data = &t102d };
static struct type t103 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t98 } };
static struct field t104f[] = { { .type = &t103, .bitfield = -1, .offset = 0 } };
static struct struct_data t104d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t104f, .alignment = 8, .size = 32 };
static struct type t104 = { .type = TY_STRUCT, .struct_data = &t104d };
static struct field t105f[] = { { .type = &t41, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t105d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t105f, .alignment = 8, .size = 16 };
static struct type t105 = { .type = TY_STRUCT, .struct_data = &t105d };
static struct field t106f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t106d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t106f, .alignment = 8, .size = 24 };
static struct type t106 = { .type = TY_STRUCT, .struct_data = &t106d };
static struct field t107f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t107d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t107f, .alignment = 8, .size = 24 };
static struct type t107 = { .type = TY_STRUCT, .struct_data = &t107d };
static struct field t108f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t108d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t108f, .alignment = 8, .size = 24 };
static struct type t108 = { .type = TY_STRUCT, .struct_data = &t108d };
static struct field t109f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t109d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t109f, .alignment = 8, .size = 24 };
static struct type t109 = { .type = TY_STRUCT, .struct_data = &t109d };
static struct field t110f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t39, .bitfield = -1, .offset = 16 } };
static struct struct_data t110d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t110f, .alignment = 8, .size = 24 };
static struct type t110 = { .type = TY_STRUCT, .struct_data = &t110d };
static struct field t111f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t111d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t111f, .alignment = 8, .size = 24 };
static struct type t111 = { .type = TY_STRUCT, .struct_data = &t111d };
static const struct row rows[] = {
{ &t0, 4, 1, { P_SSE } },
{ &t1, 4, 1, { P_SSE } },
{ &t3, 4, 1, { P_SSE } },
{ &t5, 8, 1, { P_SSE } },
{ &t7, 12, 2, { P_SSE, P_SSE } },
{ &t9, 16, 2, { P_SSE, P_SSE } },
{ &t11, 20, 1, { P_MEM } },
{ &t13, 28, 1, { P_MEM } },
{ &t15, 32, 1, { P_MEM } },
{ &t17, 36, 1, { P_MEM } },
{ &t19, 52, 1, { P_MEM } },
{ &t21, 64, 1, { P_MEM } },
{ &t23, 68, 1, { P_MEM } },
{ &t25, 8, 1, { P_GP } },
{ &t27, 4, 1, { P_GP } },
{ &t28, 12, 2, { P_SSE, P_GP } },
{ &t29, 12, 2, { P_GP, P_GP } },
{ &t31, 16, 2, { P_GP, P_GP } },
{ &t32, 12, 2, { P_GP, P_SSE } },
{ &t33, 8, 1, { P_GP } },
{ &t35, 12, 2, { P_GP, P_GP } },
{ &t37, 16, 2, { P_GP, P_GP } },
{ &t38, 12, 2, { P_GP, P_SSE } },
{ &t40, 16, 2, { P_GP, P_SSE } },
{ &t42, 16, 2, { P_GP, P_GP } },
{ &t43, 8, 1, { P_GP } },
{ &t45, 12, 2, { P_GP, P_GP } },
{ &t46, 12, 2, { P_SSE, P_GP } },
{ &t47, 12, 2, { P_GP, P_GP } },
{ &t49, 16, 2, { P_GP, P_GP } },
{ &t50, 12, 2, { P_GP, P_SSE } },
{ &t51, 12, 2, { P_GP, P_GP } },
{ &t52, 12, 2, { P_GP, P_GP } },
{ &t53, 16, 2, { P_GP, P_GP } },
{ &t54, 12, 2, { P_GP, P_SSE } },
{ &t55, 16, 2, { P_GP, P_SSE } },
{ &t56, 16, 2, { P_GP, P_GP } },
{ &t57, 16, 2, { P_SSE, P_GP } },
{ &t59, 32, 1, { P_MEM } },
{ &t60, 16, 2, { P_SSE, P_GP } },
{ &t61, 24, 1, { P_MEM } },
{ &t63, 32, 1, { P_MEM } },
{ &t64, 16, 2, { P_GP, P_SSE } },
{ &t65, 24, 1, { P_MEM } },
{ &t66, 24, 1, { P_MEM } },
{ &t67, 24, 1, { P_MEM } },
{ &t68, 24, 1, { P_MEM } },
{ &t69, 24, 1, { P_MEM } },
{ &t70, 24, 1, { P_MEM } },
{ &t71, 8, 1, { P_SSE } },
{ &t72, 20, 1, { P_MEM } },
{ &t73, 12, 2, { P_SSE, P_SSE } },
{ &t74, 12, 2, { P_SSE, P_SSE } },
{ &t76, 16, 2, { P_SSE, P_SSE } },
{ &t77, 12, 2, { P_SSE, P_SSE } },
{ &t78, 12, 2, { P_SSE, P_GP } },
{ &t79, 12, 2, { P_SSE, P_GP } },
{ &t80, 16, 2, { P_SSE, P_GP } },
{ &t81, 12, 2, { P_SSE, P_SSE } },
{ &t82, 16, 2, { P_SSE, P_SSE } },
{ &t83, 16, 2, { P_SSE, P_GP } },
{ &t84, 16, 2, { P_SSE, P_SSE } },
{ &t86, 48, 1, { P_MEM } },
{ &t87, 16, 2, { P_SSE, P_SSE } },
{ &t88, 24, 1, { P_MEM } },
{ &t90, 32, 1, { P_MEM } },
{ &t91, 16, 2, { P_SSE, P_SSE } },
{ &t92, 24, 1, { P_MEM } },
{ &t93, 24, 1, { P_MEM } },
{ &t94, 24, 1, { P_MEM } },
{ &t95, 24, 1, { P_MEM } },
{ &t96, 24, 1, { P_MEM } },
{ &t97, 24, 1, { P_MEM } },
{ &t98, 16, 2, { P_SSE, P_GP } },
{ &t100, 56, 1, { P_MEM } },
{ &t101, 16, 2, { P_SSE, P_GP } },
{ &t102, 24, 1, { P_MEM } },
{ &t104, 32, 1, { P_MEM } },
{ &t105, 16, 2, { P_GP, P_SSE } },
{ &t106, 24, 1, { P_MEM } },
{ &t107, 24, 1, { P_MEM } },
{ &t108, 24, 1, { P_MEM } },
{ &t109, 24, 1, { P_MEM } },
{ &t110, 24, 1, { P_MEM } },
{ &t111, 24, 1, { P_MEM } }
};
#elif CLASSIFY == 5
static struct type t0 = { .type = TY_SIMPLE, .simple = ST_DOUBLE };
static struct field t1f[] = { { .type = &t0, .bitfield = -1, .offset = 0 } };
static struct struct_data t1d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t1f, .alignment = 8, .size = 8 };
static struct type t1 = { .type = TY_STRUCT, .struct_data = &t1d };
static struct type t2 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t0 } };
static struct field t3f[] = { { .type = &t2, .bitfield = -1, .offset = 0 } };
static struct struct_data t3d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t3f, .alignment = 8, .size = 8 };
static struct type t3 = { .type = TY_STRUCT, .struct_data = &t3d };
static struct type t4 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t0 } };
static struct field t5f[] = { { .type = &t4, .bitfield = -1, .offset = 0 } };
static struct struct_data t5d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t5f, .alignment = 8, .size = 16 };
static struct type t5 = { .type = TY_STRUCT, .struct_data = &t5d };
static struct type t6 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t0 } };
static struct field t7f[] = { { .type = &t6, .bitfield = -1, .offset = 0 } };
static struct struct_data t7d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t7f, .alignment = 8, .size = 24 };
static struct type t7 = { .type = TY_STRUCT, .struct_data = &t7d };
static struct type t8 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t0 } };
static struct field t9f[] = { { .type = &t8, .bitfield = -1, .offset = 0 } };
static struct struct_data t9d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t9f, .alignment = 8, .size = 32 };
static struct type t9 = { .type = TY_STRUCT, .struct_data = &t9d };
static struct type t10 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t0 } };
static struct field t11f[] = { { .type = &t10, .bitfield = -1, .offset = 0 } };
static struct struct_data t11d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t11f, .alignment = 8, .size = 40 };
static struct type t11 = { .type = TY_STRUCT, .struct_data = &t11d };
static struct type t12 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t0 } };
static struct field t13f[] = { { .type = &t12, .bitfield = -1, .offset = 0 } };
static struct struct_data t13d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t13f, .alignment = 8, .size = 56 };
static struct type t13 = { .type = TY_STRUCT, .struct_data = &t13d };
static struct type t14 = { .type = TY_ARRAY, .array.length = 8, .n = 1, .children = { &t0 } };
static struct field t15f[] = { { .type = &t14, .bitfield = -1, .offset = 0 } };
static struct struct_data t15d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t15f, .alignment = 8, .size = 64 };
static struct type t15 = { .type = TY_STRUCT, .struct_data = &t15d };
static struct type t16 = { .type = TY_ARRAY, .array.length = 9, .n = 1, .children = { &t0 } };
static struct field t17f[] = { { .type = &t16, .bitfield = -1, .offset = 0 } };
static struct struct_data t17d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t17f, .alignment = 8, .size = 72 };
static struct type t17 = { .type = TY_STRUCT, .struct_data = &t17d };
static struct type t18 = { .type = TY_ARRAY, .array.length = 13, .n = 1, .children = { &t0 } };
static struct field t19f[] = { { .type = &t18, .bitfield = -1, .offset = 0 } };
static struct struct_data t19d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t19f, .alignment = 8, .size = 104 };
static struct type t19 = { .type = TY_STRUCT, .struct_data = &t19d };
static struct type t20 = { .type = TY_ARRAY, .array.length = 16, .n = 1, .children = { &t0 } };
static struct field t21f[] = { { .type = &t20, .bitfield = -1, .offset = 0 } };
static struct struct_data t21d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t21f, .alignment = 8, .size = 128 };
static struct type t21 = { .type = TY_STRUCT, .struct_data = &t21d };
static struct type t22 = { .type = TY_ARRAY, .array.length = 17, .n = 1, .children = { &t0 } };
static struct field t23f[] = { { .type = &t22, .bitfield = -1, .offset = 0 } };
static struct struct_data t23d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t23f, .alignment = 8, .size = 136 };
static struct type t23 = { .type = TY_STRUCT, .struct_data = &t23d };
static struct type t24 = { .type = TY_SIMPLE, .simple = ST_CHAR };
static struct field t25f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t25d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t25f, .alignment = 8, .size = 16 };
static struct type t25 = { .type = TY_STRUCT, .struct_data = &t25d };
static struct type t26 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t24 } };
static struct field t27f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t26, .bitfield = -1, .offset = 0 } };
static struct struct_data t27d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t27f, .alignment = 8, .size = 8 };
static struct type t27 = { .type = TY_STRUCT, .struct_data = &t27d };
static struct field t28f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t28d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t28f, .alignment = 8, .size = 24 };
static struct type t28 = { .type = TY_STRUCT, .struct_data = &t28d };
static struct field t29f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t25, .bitfield = -1, .offset = 8 } };
static struct struct_data t29d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t29f, .alignment = 8, .size = 24 };
static struct type t29 = { .type = TY_STRUCT, .struct_data = &t29d };
static struct type t30 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t25 } };
static struct field t31f[] = { { .type = &t30, .bitfield = -1, .offset = 0 } };
static struct struct_data t31d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t31f, .alignment = 8, .size = 32 };
static struct type t31 = { .type = TY_STRUCT, .struct_data = &t31d };
static struct field t32f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t32d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t32f, .alignment = 8, .size = 24 };
static struct type t32 = { .type = TY_STRUCT, .struct_data = &t32d };
static struct field t33f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 9 } };
static struct struct_data t33d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t33f, .alignment = 8, .size = 16 };
static struct type t33 = { .type = TY_STRUCT, .struct_data = &t33d };
static struct type t34 = { .type = TY_SIMPLE, .simple = ST_INT };
static struct field t35f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 12 } };
static struct struct_data t35d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t35f, .alignment = 8, .size = 16 };
static struct type t35 = { .type = TY_STRUCT, .struct_data = &t35d };
static struct type t36 = { .type = TY_SIMPLE, .simple = ST_LONG };
static struct field t37f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t37d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t37f, .alignment = 8, .size = 24 };
static struct type t37 = { .type = TY_STRUCT, .struct_data = &t37d };
static struct type t38 = { .type = TY_SIMPLE, .simple = ST_FLOAT };
static struct field t39f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 12 } };
static struct struct_data t39d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t39f, .alignment = 8, .size = 16 };
static struct type t39 = { .type = TY_STRUCT, .struct_data = &t39d };
static struct field t40f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t40d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t40f, .alignment = 8, .size = 24 };
static struct type t40 = { .type = TY_STRUCT, .struct_data = &t40d };
static struct type t41 = { .type = TY_POINTER, .n = 1, .children = { &t24 } };
static struct field t42f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t42d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t42f, .alignment = 8, .size = 24 };
static struct type t42 = { .type = TY_STRUCT, .struct_data = &t42d };
static struct field t43f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t43d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t43f, .alignment = 8, .size = 16 };
static struct type t43 = { .type = TY_STRUCT, .struct_data = &t43d };
static struct type t44 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t34 } };
static struct field t45f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t44, .bitfield = -1, .offset = 0 } };
static struct struct_data t45d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t45f, .alignment = 8, .size = 16 };
static struct type t45 = { .type = TY_STRUCT, .struct_data = &t45d };
static struct field t46f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t46d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t46f, .alignment = 8, .size = 24 };
static struct type t46 = { .type = TY_STRUCT, .struct_data = &t46d };
static struct field t47f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t43, .bitfield = -1, .offset = 8 } };
static struct struct_data t47d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t47f, .alignment = 8, .size = 24 };
static struct type t47 = { .type = TY_STRUCT, .struct_data = &t47d };
static struct type t48 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t43 } };
static struct field t49f[] = { { .type = &t48, .bitfield = -1, .offset = 0 } };
static struct struct_data t49d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t49f, .alignment = 8, .size = 32 };
static struct type t49 = { .type = TY_STRUCT, .struct_data = &t49d };
static struct field t50f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t50d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t50f, .alignment = 8, .size = 24 };
static struct type t50 = { .type = TY_STRUCT, .struct_data = &t50d };
static struct field t51f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 12 } };
static struct struct_data t51d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t51f, .alignment = 8, .size = 16 };
static struct type t51 = { .type = TY_STRUCT, .struct_data = &t51d };
static struct field t52f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 12 } };
static struct struct_data t52d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t52f, .alignment = 8, .size = 16 };
static struct type t52 = { .type = TY_STRUCT, .struct_data = &t52d };
static struct field t53f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t53d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t53f, .alignment = 8, .size = 24 };
static struct type t53 = { .type = TY_STRUCT, .struct_data = &t53d };
static struct field t54f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 12 } };
static struct struct_data t54d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t54f, .alignment = 8, .size = 16 };
static struct type t54 = { .type = TY_STRUCT, .struct_data = &t54d };
static struct field t55f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t55d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t55f, .alignment = 8, .size = 24 };
static struct type t55 = { .type = TY_STRUCT, .struct_data = &t55d };
static struct field t56f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t56d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t56f, .alignment = 8, .size = 24 };
static struct type t56 = { .type = TY_STRUCT, .struct_data = &t56d };
static struct field t57f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t57d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t57f, .alignment = 8, .size = 16 };
static struct type t57 = { .type = TY_STRUCT, .struct_data = &t57d };
static struct type t58 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t36 } };
static struct field t59f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t58, .bitfield = -1, .offset = 0 } };
static struct struct_data t59d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t59f, .alignment = 8, .size = 32 };
static struct type t59 = { .type = TY_STRUCT, .struct_data = &t59d };
static struct field t60f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t60d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t60f, .alignment = 8, .size = 24 };
static struct type t60 = { .type = TY_STRUCT, .struct_data = &t60d };
static struct field t61f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t57, .bitfield = -1, .offset = 8 } };
static struct struct_data t61d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t61f, .alignment = 8, .size = 24 };
static struct type t61 = { .type = TY_STRUCT, .struct_data = &t61d };
static struct type t62 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t57 } };
static struct field t63f[] = { { .type = &t62, .bitfield = -1, .offset = 0 } };
static struct struct_data t63d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t63f, .alignment = 8, .size = 32 };
static struct type t63 = { .type = TY_STRUCT, .struct_data = &t63d };
static struct field t64f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t64d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t64f, .alignment = 8, .size = 24 };
static struct type t64 = { .type = TY_STRUCT, .struct_data = &t64d };
static struct field t65f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t65d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t65f, .alignment = 8, .size = 24 };
static struct type t65 = { .type = TY_STRUCT, .struct_data = &t65d };
static struct field t66f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t66d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t66f, .alignment = 8, .size = 24 };
static struct type t66 = { .type = TY_STRUCT, .struct_data = &t66d };
static struct field t67f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t67d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t67f, .alignment = 8, .size = 24 };
static struct type t67 = { .type = TY_STRUCT, .struct_data = &t67d };
static struct field t68f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t68d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t68f, .alignment = 8, .size = 24 };
static struct type t68 = { .type = TY_STRUCT, .struct_data = &t68d };
static struct field t69f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t69d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t69f, .alignment = 8, .size = 24 };
static struct type t69 = { .type = TY_STRUCT, .struct_data = &t69d };
static struct field t70f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t70d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t70f, .alignment = 8, .size = 24 };
static struct type t70 = { .type = TY_STRUCT, .struct_data = &t70d };
static struct field t71f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t71d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t71f, .alignment = 8, .size = 16 };
static struct type t71 = { .type = TY_STRUCT, .struct_data = &t71d };
static struct type t72 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t38 } };
static struct field t73f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t72, .bitfield = -1, .offset = 0 } };
static struct struct_data t73d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t73f, .alignment = 8, .size = 24 };
static struct type t73 = { .type = TY_STRUCT, .struct_data = &t73d };
static struct field t74f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t74d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t74f, .alignment = 8, .size = 24 };
static struct type t74 = { .type = TY_STRUCT, .struct_data = &t74d };
static struct field t75f[] = { { .type = &t38, .bitfield = -1, .offset = 0 }, { .type = &t71, .bitfield = -1, .offset = 8 } };
static struct struct_data t75d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t75f, .alignment = 8, .size = 24 };
static struct type t75 = { .type = TY_STRUCT, .struct_data = &t75d };
static struct type t76 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t71 } };
static struct field t77f[] = { { .type = &t76, .bitfield = -1, .offset = 0 } };
static struct struct_data t77d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t77f, .alignment = 8, .size = 32 };
static struct type t77 = { .type = TY_STRUCT, .struct_data = &t77d };
static struct field t78f[] = { { .type = &t38, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t78d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t78f, .alignment = 8, .size = 24 };
static struct type t78 = { .type = TY_STRUCT, .struct_data = &t78d };
static struct field t79f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 12 } };
static struct struct_data t79d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t79f, .alignment = 8, .size = 16 };
static struct type t79 = { .type = TY_STRUCT, .struct_data = &t79d };
static struct field t80f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 12 } };
static struct struct_data t80d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t80f, .alignment = 8, .size = 16 };
static struct type t80 = { .type = TY_STRUCT, .struct_data = &t80d };
static struct field t81f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t81d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t81f, .alignment = 8, .size = 24 };
static struct type t81 = { .type = TY_STRUCT, .struct_data = &t81d };
static struct field t82f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 12 } };
static struct struct_data t82d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t82f, .alignment = 8, .size = 16 };
static struct type t82 = { .type = TY_STRUCT, .struct_data = &t82d };
static struct field t83f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t83d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t83f, .alignment = 8, .size = 24 };
static struct type t83 = { .type = TY_STRUCT, .struct_data = &t83d };
static struct field t84f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t84d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t84f, .alignment = 8, .size = 24 };
static struct type t84 = { .type = TY_STRUCT, .struct_data = &t84d };
static struct field t85f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t85d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t85f, .alignment = 8, .size = 16 };
static struct type t85 = { .type = TY_STRUCT, .struct_data = &t85d };
static struct type t86 = { .type = TY_ARRAY, .array.length = 6, .n = 1, .children = { &t0 } };
static struct field t87f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t86, .bitfield = -1, .offset = 0 } };
static struct struct_data t87d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t87f, .alignment = 8, .size = 48 };
static struct type t87 = { .type = TY_STRUCT, .struct_data = &t87d };
static struct field t88f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t88d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t88f, .alignment = 8, .size = 24 };
static struct type t88 = { .type = TY_STRUCT, .struct_data = &t88d };
static struct field t89f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t85, .bitfield = -1, .offset = 8 } };
static struct struct_data t89d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t89f, .alignment = 8, .size = 24 };
static struct type t89 = { .type = TY_STRUCT, .struct_data = &t89d };
static struct type t90 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t85 } };
static struct field t91f[] = { { .type = &t90, .bitfield = -1, .offset = 0 } };
static struct struct_data t91d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t91f, .alignment = 8, .size = 32 };
static struct type t91 = { .type = TY_STRUCT, .struct_data = &t91d };
static struct field t92f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t92d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t92f, .alignment = 8, .size = 24 };
static struct type t92 = { .type = TY_STRUCT, .struct_data = &t92d };
static struct field t93f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t93d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t93f, .alignment = 8, .size = 24 };
static struct type t93 = { .type = TY_STRUCT, .struct_data = &t93d };
static struct field t94f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t94d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t94f, .alignment = 8, .size = 24 };
static struct type t94 = { .type = TY_STRUCT, .struct_data = &t94d };
static struct field t95f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t95d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t95f, .alignment = 8, .size = 24 };
static struct type t95 = { .type = TY_STRUCT, .struct_data = &t95d };
static struct field t96f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t96d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t96f, .alignment = 8, .size = 24 };
static struct type t96 = { .type = TY_STRUCT, .struct_data = &t96d };
static struct field t97f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t97d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t97f, .alignment = 8, .size = 24 };
static struct type t97 = { .type = TY_STRUCT, .struct_data = &t97d };
static struct field t98f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t98d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t98f, .alignment = 8, .size = 24 };
static struct type t98 = { .type = TY_STRUCT, .struct_data = &t98d };
static struct field t99f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 } };
static struct struct_data t99d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t99f, .alignment = 8, .size = 16 };
static struct type t99 = { .type = TY_STRUCT, .struct_data = &t99d };
static struct type t100 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t41 } };
static struct field t101f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t100, .bitfield = -1, .offset = 0 } };
static struct struct_data t101d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t101f, .alignment = 8, .size = 56 };
static struct type t101 = { .type = TY_STRUCT, .struct_data = &t101d };
static struct field t102f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t102d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t102f, .alignment = 8, .size = 24 };
static struct type t102 = { .type = TY_STRUCT, .struct_data = &t102d };
static struct field t103f[] = { { .type = &t41, .bitfield = -1, .offset = 0 }, { .type = &t99, .bitfield = -1, .offset = 8 } };
static struct struct_data t103d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t103f, .alignment = 8, .size = 24 };
static struct type t103 = { .type = TY_STRUCT, .struct_data = &t103d };
static struct type t104 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t99 } };
static struct field t105f[] = { { .type = &t104, .bitfield = -1, .offset = 0 } };
static struct struct_data t105d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t105f, .alignment = 8, .size = 32 };
static struct type t105 = { .type = TY_STRUCT, .struct_data = &t105d };
static struct field t106f[] = { { .type = &t41, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t106d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t106f, .alignment = 8, .size = 24 };
static struct type t106 = { .type = TY_STRUCT, .struct_data = &t106d };
static struct field t107f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t107d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t107f, .alignment = 8, .size = 24 };
static struct type t107 = { .type = TY_STRUCT, .struct_data = &t107d };
static struct field t108f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t108d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t108f, .alignment = 8, .size = 24 };
static struct type t108 = { .type = TY_STRUCT, .struct_data = &t108d };
static struct field t109f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t109d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t109f, .alignment = 8, .size = 24 };
static struct type t109 = { .type = TY_STRUCT, .struct_data = &t109d };
static struct field t110f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t110d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t110f, .alignment = 8, .size = 24 };
static struct type t110 = { .type = TY_STRUCT, .struct_data = &t110d };
static struct field t111f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t111d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t111f, .alignment = 8, .size = 24 };
static struct type t111 = { .type = TY_STRUCT, .struct_data = &t111d };
static struct field t112f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t41, .bitfield = -1, .offset = 8 }, { .type = &t41, .bitfield = -1, .offset = 16 } };
static struct struct_data t112d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t112f, .alignment = 8, .size = 24 };
static struct type t112 = { .type = TY_STRUCT, .struct_data = &t112d };
static const struct row rows[] = {
{ &t0, 8, 1, { P_SSE } },
{ &t1, 8, 1, { P_SSE } },
{ &t3, 8, 1, { P_SSE } },
{ &t5, 16, 2, { P_SSE, P_SSE } },
{ &t7, 24, 1, { P_MEM } },
{ &t9, 32, 1, { P_MEM } },
{ &t11, 40, 1, { P_MEM } },
{ &t13, 56, 1, { P_MEM } },
{ &t15, 64, 1, { P_MEM } },
{ &t17, 72, 1, { P_MEM } },
{ &t19, 104, 1, { P_MEM } },
{ &t21, 128, 1, { P_MEM } },
{ &t23, 136, 1, { P_MEM } },
{ &t25, 16, 2, { P_SSE, P_GP } },
{ &t27, 8, 1, { P_GP } },
{ &t28, 24, 1, { P_MEM } },
{ &t29, 24, 1, { P_MEM } },
{ &t31, 32, 1, { P_MEM } },
{ &t32, 24, 1, { P_MEM } },
{ &t33, 16, 2, { P_SSE, P_GP } },
{ &t35, 16, 2, { P_SSE, P_GP } },
{ &t37, 24, 1, { P_MEM } },
{ &t39, 16, 2, { P_SSE, P_GP } },
{ &t40, 24, 1, { P_MEM } },
{ &t42, 24, 1, { P_MEM } },
{ &t43, 16, 2, { P_SSE, P_GP } },
{ &t45, 16, 2, { P_GP, P_GP } },
{ &t46, 24, 1, { P_MEM } },
{ &t47, 24, 1, { P_MEM } },
{ &t49, 32, 1, { P_MEM } },
{ &t50, 24, 1, { P_MEM } },
{ &t51, 16, 2, { P_SSE, P_GP } },
{ &t52, 16, 2, { P_SSE, P_GP } },
{ &t53, 24, 1, { P_MEM } },
{ &t54, 16, 2, { P_SSE, P_GP } },
{ &t55, 24, 1, { P_MEM } },
{ &t56, 24, 1, { P_MEM } },
{ &t57, 16, 2, { P_SSE, P_GP } },
{ &t59, 32, 1, { P_MEM } },
{ &t60, 24, 1, { P_MEM } },
{ &t61, 24, 1, { P_MEM } },
{ &t63, 32, 1, { P_MEM } },
{ &t64, 24, 1, { P_MEM } },
{ &t65, 24, 1, { P_MEM } },
{ &t66, 24, 1, { P_MEM } },
{ &t67, 24, 1, { P_MEM } },
{ &t68, 24, 1, { P_MEM } },
{ &t69, 24, 1, { P_MEM } },
{ &t70, 24, 1, { P_MEM } },
{ &t71, 16, 2, { P_SSE, P_SSE } },
{ &t73, 24, 1, { P_MEM } },
{ &t74, 24, 1, { P_MEM } },
{ &t75, 24, 1, { P_MEM } },
{ &t77, 32, 1, { P_MEM } },
{ &t78, 24, 1, { P_MEM } },
{ &t79, 16, 2, { P_SSE, P_GP } },
{ &t80, 16, 2, { P_SSE, P_GP } },
{ &t81, 24, 1, { P_MEM } },
{ &t82, 16, 2, { P_SSE, P_SSE } },
{ &t83, 24, 1, { P_MEM } },
{ &t84, 24, 1, { P_MEM } },
{ &t85, 16, 2, { P_SSE, P_SSE } },
{ &t87, 48, 1, { P_MEM } },
{ &t88, 24, 1, { P_MEM } },
{ &t89, 24, 1, { P_MEM } },
{ &t91, 32, 1, { P_MEM } },
{ &t92, 24, 1, { P_MEM } },
{ &t93, 24, 1, { P_MEM } },
{ &t94, 24, 1, { P_MEM } },
{ &t95, 24, 1, { P_MEM } },
{ &t96, 24, 1, { P_MEM } },
{ &t97, 24, 1, { P_MEM } },
{ &t98, 24, 1, { P_MEM } },
{ &t99, 16, 2, { P_SSE, P_GP } },
{ &t101, 56, 1, { P_MEM } },
{ &t102, 24, 1, { P_MEM } },
{ &t103, 24, 1, { P_MEM } },
{ &t105, 32, 1, { P_MEM } },
{ &t106, 24, 1, { P_MEM } },
{ &t107, 24, 1, { P_MEM } },
{ &t108, 24, 1, { P_MEM } },
{ &t109, 24, 1, { P_MEM } },
{ &t110, 24, 1, { P_MEM } },
{ &t111, 24, 1, { P_MEM } },
{ &t112, 24, 1, { P_MEM } }
};
#elif CLASSIFY == 6
static struct type t0 = { .type = TY_SIMPLE, .simple = ST_CHAR };
static struct type t1 = { .type = TY_POINTER, .n = 1, .children = { &t0 } };
static struct field t2f[] = { { .type = &t1, .bitfield = -1, .offset = 0 } };
static struct struct_data t2d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t2f, .alignment = 8, .size = 8 };
static struct type t2 = { .type = TY_STRUCT, .struct_data = &t2d };
static struct type t3 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t1 } };
static struct field t4f[] = { { .type = &t3, .bitfield = -1, .offset = 0 } };
static struct struct_data t4d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t4f, .alignment = 8, .size = 8 };
static struct type t4 = { .type = TY_STRUCT, .struct_data = &t4d };
static struct type t5 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t1 } };
static struct field t6f[] = { { .type = &t5, .bitfield = -1, .offset = 0 } };
static struct struct_data t6d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t6f, .alignment = 8, .size = 16 };
static struct type t6 = { .type = TY_STRUCT, .struct_data = &t6d };
static struct type t7 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t1 } };
static struct field t8f[] = { { .type = &t7, .bitfield = -1, .offset = 0 } };
static struct struct_data t8d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t8f, .alignment = 8, .size = 24 };
static struct type t8 = { .type = TY_STRUCT, .struct_data = &t8d };
static struct type t9 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t1 } };
static struct field t10f[] = { { .type = &t9, .bitfield = -1, .offset = 0 } };
static struct struct_data t10d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t10f, .alignment = 8, .size = 32 };
static struct type t10 = { .type = TY_STRUCT, .struct_data = &t10d };
static struct type t11 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t1 } };
static struct field t12f[] = { { .type = &t11, .bitfield = -1, .offset = 0 } };
static struct struct_data t12d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t12f, .alignment = 8, .size = 40 };
static struct type t12 = { .type = TY_STRUCT, .struct_data = &t12d };
static struct type t13 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t1 } };
static struct field t14f[] = { { .type = &t13, .bitfield = -1, .offset = 0 } };
static struct struct_data t14d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t14f, .alignment = 8, .size = 56 };
static struct type t14 = { .type = TY_STRUCT, .struct_data = &t14d };
static struct type t15 = { .type = TY_ARRAY, .array.length = 8, .n = 1, .children = { &t1 } };
static struct field t16f[] = { { .type = &t15, .bitfield = -1, .offset = 0 } };
static struct struct_data t16d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t16f, .alignment = 8, .size = 64 };
static struct type t16 = { .type = TY_STRUCT, .struct_data = &t16d };
static struct type t17 = { .type = TY_ARRAY, .array.length = 9, .n = 1, .children = { &t1 } };
static struct field t18f[] = { { .type = &t17, .bitfield = -1, .offset = 0 } };
static struct struct_data t18d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t18f, .alignment = 8, .size = 72 };
static struct type t18 = { .type = TY_STRUCT, .struct_data = &t18d };
static struct type t19 = { .type = TY_ARRAY, .array.length = 13, .n = 1, .children = { &t1 } };
static struct field t20f[] = { { .type = &t19, .bitfield = -1, .offset = 0 } };
static struct struct_data t20d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t20f, .alignment = 8, .size = 104 };
static struct type t20 = { .type = TY_STRUCT, .struct_data = &t20d };
static struct type t21 = { .type = TY_ARRAY, .array.length = 16, .n = 1, .children = { &t1 } };
static struct field t22f[] = { { .type = &t21, .bitfield = -1, .offset = 0 } };
static struct struct_data t22d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t22f, .alignment = 8, .size = 128 };
static struct type t22 = { .type = TY_STRUCT, .struct_data = &t22d };
static struct type t23 = { .type = TY_ARRAY, .array.length = 17, .n = 1, .children = { &t1 } };
static struct field t24f[] = { { .type = &t23, .bitfield = -1, .offset = 0 } };
static struct struct_data t24d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t24f, .alignment = 8, .size = 136 };
static struct type t24 = { .type = TY_STRUCT, .struct_data = &t24d };
static struct field t25f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 } };
static struct struct_data t25d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t25f, .alignment = 8, .size = 16 };
static struct type t25 = { .type = TY_STRUCT, .struct_data = &t25d };
static struct type t26 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t0 } };
static struct field t27f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t26, .bitfield = -1, .offset = 0 } };
static struct struct_data t27d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t27f, .alignment = 8, .size = 8 };
static struct type t27 = { .type = TY_STRUCT, .struct_data = &t27d };
static struct field t28f[] = { { .type = &t5, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t28d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t28f, .alignment = 8, .size = 24 };
static struct type t28 = { .type = TY_STRUCT, .struct_data = &t28d };
static struct field t29f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t25, .bitfield = -1, .offset = 8 } };
static struct struct_data t29d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t29f, .alignment = 8, .size = 24 };
static struct type t29 = { .type = TY_STRUCT, .struct_data = &t29d };
static struct type t30 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t25 } };
static struct field t31f[] = { { .type = &t30, .bitfield = -1, .offset = 0 } };
static struct struct_data t31d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t31f, .alignment = 8, .size = 32 };
static struct type t31 = { .type = TY_STRUCT, .struct_data = &t31d };
static struct field t32f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t6, .bitfield = -1, .offset = 8 } };
static struct struct_data t32d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t32f, .alignment = 8, .size = 24 };
static struct type t32 = { .type = TY_STRUCT, .struct_data = &t32d };
static struct field t33f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 9 } };
static struct struct_data t33d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t33f, .alignment = 8, .size = 16 };
static struct type t33 = { .type = TY_STRUCT, .struct_data = &t33d };
static struct type t34 = { .type = TY_SIMPLE, .simple = ST_INT };
static struct field t35f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 12 } };
static struct struct_data t35d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t35f, .alignment = 8, .size = 16 };
static struct type t35 = { .type = TY_STRUCT, .struct_data = &t35d };
static struct type t36 = { .type = TY_SIMPLE, .simple = ST_LONG };
static struct field t37f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t37d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t37f, .alignment = 8, .size = 24 };
static struct type t37 = { .type = TY_STRUCT, .struct_data = &t37d };
static struct type t38 = { .type = TY_SIMPLE, .simple = ST_FLOAT };
static struct field t39f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 12 } };
static struct struct_data t39d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t39f, .alignment = 8, .size = 16 };
static struct type t39 = { .type = TY_STRUCT, .struct_data = &t39d };
static struct type t40 = { .type = TY_SIMPLE, .simple = ST_DOUBLE };
static struct field t41f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t41d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t41f, .alignment = 8, .size = 24 };
static struct type t41 = { .type = TY_STRUCT, .struct_data = &t41d };
static struct field t42f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t0, .bitfield = -1, .offset = 8 }, { .type = &t1, .bitfield = -1, .offset = 16 } };
static struct struct_data t42d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t42f, .alignment = 8, .size = 24 };
static struct type t42 = { .type = TY_STRUCT, .struct_data = &t42d };
static struct field t43f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t43d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t43f, .alignment = 8, .size = 16 };
static struct type t43 = { .type = TY_STRUCT, .struct_data = &t43d };
static struct type t44 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t34 } };
static struct field t45f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t44, .bitfield = -1, .offset = 0 } };
static struct struct_data t45d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t45f, .alignment = 8, .size = 16 };
static struct type t45 = { .type = TY_STRUCT, .struct_data = &t45d };
static struct field t46f[] = { { .type = &t5, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t46d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t46f, .alignment = 8, .size = 24 };
static struct type t46 = { .type = TY_STRUCT, .struct_data = &t46d };
static struct field t47f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t43, .bitfield = -1, .offset = 8 } };
static struct struct_data t47d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t47f, .alignment = 8, .size = 24 };
static struct type t47 = { .type = TY_STRUCT, .struct_data = &t47d };
static struct type t48 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t43 } };
static struct field t49f[] = { { .type = &t48, .bitfield = -1, .offset = 0 } };
static struct struct_data t49d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t49f, .alignment = 8, .size = 32 };
static struct type t49 = { .type = TY_STRUCT, .struct_data = &t49d };
static struct field t50f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t6, .bitfield = -1, .offset = 8 } };
static struct struct_data t50d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t50f, .alignment = 8, .size = 24 };
static struct type t50 = { .type = TY_STRUCT, .struct_data = &t50d };
static struct field t51f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 12 } };
static struct struct_data t51d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t51f, .alignment = 8, .size = 16 };
static struct type t51 = { .type = TY_STRUCT, .struct_data = &t51d };
static struct field t52f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 12 } };
static struct struct_data t52d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t52f, .alignment = 8, .size = 16 };
static struct type t52 = { .type = TY_STRUCT, .struct_data = &t52d };
static struct field t53f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t53d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t53f, .alignment = 8, .size = 24 };
static struct type t53 = { .type = TY_STRUCT, .struct_data = &t53d };
static struct field t54f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 12 } };
static struct struct_data t54d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t54f, .alignment = 8, .size = 16 };
static struct type t54 = { .type = TY_STRUCT, .struct_data = &t54d };
static struct field t55f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t55d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t55f, .alignment = 8, .size = 24 };
static struct type t55 = { .type = TY_STRUCT, .struct_data = &t55d };
static struct field t56f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 8 }, { .type = &t1, .bitfield = -1, .offset = 16 } };
static struct struct_data t56d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t56f, .alignment = 8, .size = 24 };
static struct type t56 = { .type = TY_STRUCT, .struct_data = &t56d };
static struct field t57f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t57d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t57f, .alignment = 8, .size = 16 };
static struct type t57 = { .type = TY_STRUCT, .struct_data = &t57d };
static struct type t58 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t36 } };
static struct field t59f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t58, .bitfield = -1, .offset = 0 } };
static struct struct_data t59d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t59f, .alignment = 8, .size = 32 };
static struct type t59 = { .type = TY_STRUCT, .struct_data = &t59d };
static struct field t60f[] = { { .type = &t5, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t60d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t60f, .alignment = 8, .size = 24 };
static struct type t60 = { .type = TY_STRUCT, .struct_data = &t60d };
static struct field t61f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t57, .bitfield = -1, .offset = 8 } };
static struct struct_data t61d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t61f, .alignment = 8, .size = 24 };
static struct type t61 = { .type = TY_STRUCT, .struct_data = &t61d };
static struct type t62 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t57 } };
static struct field t63f[] = { { .type = &t62, .bitfield = -1, .offset = 0 } };
static struct struct_data t63d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t63f, .alignment = 8, .size = 32 };
static struct type t63 = { .type = TY_STRUCT, .struct_data = &t63d };
static struct field t64f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t6, .bitfield = -1, .offset = 8 } };
static struct struct_data t64d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t64f, .alignment = 8, .size = 24 };
static struct type t64 = { .type = TY_STRUCT, .struct_data = &t64d };
static struct field t65f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t65d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t65f, .alignment = 8, .size = 24 };
static struct type t65 = { .type = TY_STRUCT, .struct_data = &t65d };
static struct field t66f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t66d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t66f, .alignment = 8, .size = 24 };
static struct type t66 = { .type = TY_STRUCT, .struct_data = &t66d };
static struct field t67f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t67d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t67f, .alignment = 8, .size = 24 };
static struct type t67 = { .type = TY_STRUCT, .struct_data = &t67d };
static struct field t68f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t68d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t68f, .alignment = 8, .size = 24 };
static struct type t68 = { .type = TY_STRUCT, .struct_data = &t68d };
static struct field t69f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t69d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t69f, .alignment = 8, .size = 24 };
static struct type t69 = { .type = TY_STRUCT, .struct_data = &t69d };
static struct field t70f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t1, .bitfield = -1, .offset = 16 } };
static struct struct_data t70d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t70f, .alignment = 8, .size = 24 };
static struct type t70 = { .type = TY_STRUCT, .struct_data = &t70d };
static struct field t71f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t71d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t71f, .alignment = 8, .size = 16 };
static struct type t71 = { .type = TY_STRUCT, .struct_data = &t71d };
static struct type t72 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t38 } };
static struct field t73f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t72, .bitfield = -1, .offset = 0 } };
static struct struct_data t73d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t73f, .alignment = 8, .size = 24 };
static struct type t73 = { .type = TY_STRUCT, .struct_data = &t73d };
static struct field t74f[] = { { .type = &t5, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t74d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t74f, .alignment = 8, .size = 24 };
static struct type t74 = { .type = TY_STRUCT, .struct_data = &t74d };
static struct field t75f[] = { { .type = &t38, .bitfield = -1, .offset = 0 }, { .type = &t71, .bitfield = -1, .offset = 8 } };
static struct struct_data t75d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t75f, .alignment = 8, .size = 24 };
static struct type t75 = { .type = TY_STRUCT, .struct_data = &t75d };
static struct type t76 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t71 } };
static struct field t77f[] = { { .type = &t76, .bitfield = -1, .offset = 0 } };
static struct struct_data t77d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t77f, .alignment = 8, .size = 32 };
static struct type t77 = { .type = TY_STRUCT, .struct_data = &t77d };
static struct field t78f[] = { { .type = &t38, .bitfield = -1, .offset = 0 }, { .type = &t6, .bitfield = -1, .offset = 8 } };
static struct struct_data t78d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t78f, .alignment = 8, .size = 24 };
static struct type t78 = { .type = TY_STRUCT, .struct_data = &t78d };
static struct field t79f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 12 } };
static struct struct_data t79d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t79f, .alignment = 8, .size = 16 };
static struct type t79 = { .type = TY_STRUCT, .struct_data = &t79d };
static struct field t80f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 12 } };
static struct struct_data t80d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t80f, .alignment = 8, .size = 16 };
static struct type t80 = { .type = TY_STRUCT, .struct_data = &t80d };
static struct field t81f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t81d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t81f, .alignment = 8, .size = 24 };
static struct type t81 = { .type = TY_STRUCT, .struct_data = &t81d };
static struct field t82f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 12 } };
static struct struct_data t82d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t82f, .alignment = 8, .size = 16 };
static struct type t82 = { .type = TY_STRUCT, .struct_data = &t82d };
static struct field t83f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t83d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t83f, .alignment = 8, .size = 24 };
static struct type t83 = { .type = TY_STRUCT, .struct_data = &t83d };
static struct field t84f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 8 }, { .type = &t1, .bitfield = -1, .offset = 16 } };
static struct struct_data t84d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t84f, .alignment = 8, .size = 24 };
static struct type t84 = { .type = TY_STRUCT, .struct_data = &t84d };
static struct field t85f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t85d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t85f, .alignment = 8, .size = 16 };
static struct type t85 = { .type = TY_STRUCT, .struct_data = &t85d };
static struct type t86 = { .type = TY_ARRAY, .array.length = 6, .n = 1, .children = { &t40 } };
static struct field t87f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t86, .bitfield = -1, .offset = 0 } };
static struct struct_data t87d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t87f, .alignment = 8, .size = 48 };
static struct type t87 = { .type = TY_STRUCT, .struct_data = &t87d };
static struct field t88f[] = { { .type = &t5, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t88d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t88f, .alignment = 8, .size = 24 };
static struct type t88 = { .type = TY_STRUCT, .struct_data = &t88d };
static struct field t89f[] = { { .type = &t40, .bitfield = -1, .offset = 0 }, { .type = &t85, .bitfield = -1, .offset = 8 } };
static struct struct_data t89d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t89f, .alignment = 8, .size = 24 };
static struct type t89 = { .type = TY_STRUCT, .struct_data = &t89d };
static struct type t90 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t85 } };
static struct field t91f[] = { { .type = &t90, .bitfield = -1, .offset = 0 } };
static struct struct_data t91d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t91f, .alignment = 8, .size = 32 };
static struct type t91 = { .type = TY_STRUCT, .struct_data = &t91d };
static struct field t92f[] = { { .type = &t40, .bitfield = -1, .offset = 0 }, { .type = &t6, .bitfield = -1, .offset = 8 } };
static struct struct_data t92d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t92f, .alignment = 8, .size = 24 };
static struct type t92 = { .type = TY_STRUCT, .struct_data = &t92d };
static struct field t93f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t93d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t93f, .alignment = 8, .size = 24 };
static struct type t93 = { .type = TY_STRUCT, .struct_data = &t93d };
static struct field t94f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t94d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t94f, .alignment = 8, .size = 24 };
static struct type t94 = { .type = TY_STRUCT, .struct_data = &t94d };
static struct field t95f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t95d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t95f, .alignment = 8, .size = 24 };
static struct type t95 = { .type = TY_STRUCT, .struct_data = &t95d };
static struct field t96f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t96d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t96f, .alignment = 8, .size = 24 };
static struct type t96 = { .type = TY_STRUCT, .struct_data = &t96d };
static struct field t97f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t97d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t97f, .alignment = 8, .size = 24 };
static struct type t97 = { .type = TY_STRUCT, .struct_data = &t97d };
static struct field t98f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t1, .bitfield = -1, .offset = 16 } };
static struct struct_data t98d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t98f, .alignment = 8, .size = 24 };
static struct type t98 = { .type = TY_STRUCT, .struct_data = &t98d };
static struct field t99f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 8 } };
static struct struct_data t99d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t99f, .alignment = 8, .size = 16 };
static struct type t99 = { .type = TY_STRUCT, .struct_data = &t99d };
static struct field t100f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t13, .bitfield = -1, .offset = 0 } };
static struct struct_data t100d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t100f, .alignment = 8, .size = 56 };
static struct type t100 = { .type = TY_STRUCT, .struct_data = &t100d };
static struct field t101f[] = { { .type = &t5, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 16 } };
static struct struct_data t101d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t101f, .alignment = 8, .size = 24 };
static struct type t101 = { .type = TY_STRUCT, .struct_data = &t101d };
static struct field t102f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t99, .bitfield = -1, .offset = 8 } };
static struct struct_data t102d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t102f, .alignment = 8, .size = 24 };
static struct type t102 = { .type = TY_STRUCT, .struct_data = &t102d };
static struct type t103 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t99 } };
static struct field t104f[] = { { .type = &t103, .bitfield = -1, .offset = 0 } };
static struct struct_data t104d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t104f, .alignment = 8, .size = 32 };
static struct type t104 = { .type = TY_STRUCT, .struct_data = &t104d };
static struct field t105f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t6, .bitfield = -1, .offset = 8 } };
static struct struct_data t105d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t105f, .alignment = 8, .size = 24 };
static struct type t105 = { .type = TY_STRUCT, .struct_data = &t105d };
static struct field t106f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 8 }, { .type = &t0, .bitfield = -1, .offset = 16 } };
static struct struct_data t106d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t106f, .alignment = 8, .size = 24 };
static struct type t106 = { .type = TY_STRUCT, .struct_data = &t106d };
static struct field t107f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t107d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t107f, .alignment = 8, .size = 24 };
static struct type t107 = { .type = TY_STRUCT, .struct_data = &t107d };
static struct field t108f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t108d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t108f, .alignment = 8, .size = 24 };
static struct type t108 = { .type = TY_STRUCT, .struct_data = &t108d };
static struct field t109f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t109d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t109f, .alignment = 8, .size = 24 };
static struct type t109 = { .type = TY_STRUCT, .struct_data = &t109d };
static struct field t110f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t110d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t110f, .alignment = 8, .size = 24 };
static struct type t110 = { .type = TY_STRUCT, .struct_data = &t110d };
static struct field t111f[] = { { .type = &t1, .bitfield = -1, .offset = 0 }, { .type = &t1, .bitfield = -1, .offset = 8 }, { .type = &t1, .bitfield = -1, .offset = 16 } };
static struct struct_data t111d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t111f, .alignment = 8, .size = 24 };
static struct type t111 = { .type = TY_STRUCT, .struct_data = &t111d };
static const struct row rows[] = {
{ &t1, 8, 1, { P_GP } },
{ &t2, 8, 1, { P_GP } },
{ &t4, 8, 1, { P_GP } },
{ &t6, 16, 2, { P_GP, P_GP } },
{ &t8, 24, 1, { P_MEM } },
{ &t10, 32, 1, { P_MEM } },
{ &t12, 40, 1, { P_MEM } },
{ &t14, 56, 1, { P_MEM } },
{ &t16, 64, 1, { P_MEM } },
{ &t18, 72, 1, { P_MEM } },
{ &t20, 104, 1, { P_MEM } },
{ &t22, 128, 1, { P_MEM } },
{ &t24, 136, 1, { P_MEM } },
{ &t25, 16, 2, { P_GP, P_GP } },
{ &t27, 8, 1, { P_GP } },
{ &t28, 24, 1, { P_MEM } },
{ &t29, 24, 1, { P_MEM } },
{ &t31, 32, 1, { P_MEM } },
{ &t32, 24, 1, { P_MEM } },
{ &t33, 16, 2, { P_GP, P_GP } },
{ &t35, 16, 2, { P_GP, P_GP } },
{ &t37, 24, 1, { P_MEM } },
{ &t39, 16, 2, { P_GP, P_GP } },
{ &t41, 24, 1, { P_MEM } },
{ &t42, 24, 1, { P_MEM } },
{ &t43, 16, 2, { P_GP, P_GP } },
{ &t45, 16, 2, { P_GP, P_GP } },
{ &t46, 24, 1, { P_MEM } },
{ &t47, 24, 1, { P_MEM } },
{ &t49, 32, 1, { P_MEM } },
{ &t50, 24, 1, { P_MEM } },
{ &t51, 16, 2, { P_GP, P_GP } },
{ &t52, 16, 2, { P_GP, P_GP } },
{ &t53, 24, 1, { P_MEM } },
{ &t54, 16, 2, { P_GP, P_GP } },
{ &t55, 24, 1, { P_MEM } },
{ &t56, 24, 1, { P_MEM } },
{ &t57, 16, 2, { P_GP, P_GP } },
{ &t59, 32, 1, { P_MEM } },
{ &t60, 24, 1, { P_MEM } },
{ &t61, 24, 1, { P_MEM } },
{ &t63, 32, 1, { P_MEM } },
{ &t64, 24, 1, { P_MEM } },
{ &t65, 24, 1, { P_MEM } },
{ &t66, 24, 1, { P_MEM } },
{ &t67, 24, 1, { P_MEM } },
{ &t68, 24, 1, { P_MEM } },
{ &t69, 24, 1, { P_MEM } },
{ &t70, 24, 1, { P_MEM } },
{ &t71, 16, 2, { P_GP, P_SSE } },
{ &t73, 24, 1, { P_MEM } },
{ &t74, 24, 1, { P_MEM } },
{ &t75, 24, 1, { P_MEM } },
{ &t77, 32, 1, { P_MEM } },
{ &t78, 24, 1, { P_MEM } },
{ &t79, 16, 2, { P_GP, P_GP } },
{ &t80, 16, 2, { P_GP, P_GP } },
{ &t81, 24, 1, { P_MEM } },
{ &t82, 16, 2, { P_GP, P_SSE } },
{ &t83, 24, 1, { P_MEM } },
{ &t84, 24, 1, { P_MEM } },
{ &t85, 16, 2, { P_GP, P_SSE } },
{ &t87, 48, 1, { P_MEM } },
{ &t88, 24, 1, { P_MEM } },
{ &t89, 24, 1, { P_MEM } },
{ &t91, 32, 1, { P_MEM } },
{ &t92, 24, 1, { P_MEM } },
{ &t93, 24, 1, { P_MEM } },
{ &t94, 24, 1, { P_MEM } },
{ &t95, 24, 1, { P_MEM } },
{ &t96, 24, 1, { P_MEM } },
{ &t97, 24, 1, { P_MEM } },
{ &t98, 24, 1, { P_MEM } },
{ &t99, 16, 2, { P_GP, P_GP } },
{ &t100, 56, 1, { P_MEM } },
{ &t101, 24, 1, { P_MEM } },
{ &t102, 24, 1, { P_MEM } },
{ &t104, 32, 1, { P_MEM } },
{ &t105, 24, 1, { P_MEM } },
{ &t106, 24, 1, { P_MEM } },
{ &t107, 24, 1, { P_MEM } },
{ &t108, 24, 1, { P_MEM } },
{ &t109, 24, 1, { P_MEM } },
{ &t110, 24, 1, { P_MEM } },
{ &t111, 24, 1, { P_MEM } }
};
#elif CLASSIFY == 7
static struct type t0 = { .type = TY_SIMPLE, .simple = ST_BOOL };
static struct field t1f[] = { { .type = &t0, .bitfield = -1, .offset = 0 } };
static struct struct_data t1d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t1f, .alignment = 1, .size = 1 };
static struct type t1 = { .type = TY_STRUCT, .struct_data = &t1d };
static struct type t2 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t0 } };
static struct field t3f[] = { { .type = &t2, .bitfield = -1, .offset = 0 } };
static struct struct_data t3d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t3f, .alignment = 1, .size = 1 };
static struct type t3 = { .type = TY_STRUCT, .struct_data = &t3d };
static struct type t4 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t0 } };
static struct field t5f[] = { { .type = &t4, .bitfield = -1, .offset = 0 } };
static struct struct_data t5d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t5f, .alignment = 1, .size = 2 };
static struct type t5 = { .type = TY_STRUCT, .struct_data = &t5d };
static struct type t6 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t0 } };
static struct field t7f[] = { { .type = &t6, .bitfield = -1, .offset = 0 } };
static struct struct_data t7d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t7f, .alignment = 1, .size = 3 };
static struct type t7 = { .type = TY_STRUCT, .struct_data = &t7d };
static struct type t8 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t0 } };
static struct field t9f[] = { { .type = &t8, .bitfield = -1, .offset = 0 } };
static struct struct_data t9d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t9f, .alignment = 1, .size = 4 };
static struct type t9 = { .type = TY_STRUCT, .struct_data = &t9d };
static struct type t10 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t0 } };
static struct field t11f[] = { { .type = &t10, .bitfield = -1, .offset = 0 } };
static struct struct_data t11d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t11f, .alignment = 1, .size = 5 };
static struct type t11 = { .type = TY_STRUCT, .struct_data = &t11d };
static struct type t12 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t0 } };
static struct field t13f[] = { { .type = &t12, .bitfield = -1, .offset = 0 } };
static struct struct_data t13d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t13f, .alignment = 1, .size = 7 };
static struct type t13 = { .type = TY_STRUCT, .struct_data = &t13d };
static struct type t14 = { .type = TY_ARRAY, .array.length = 8, .n = 1, .children = { &t0 } };
static struct field t15f[] = { { .type = &t14, .bitfield = -1, .offset = 0 } };
static struct struct_data t15d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t15f, .alignment = 1, .size = 8 };
static struct type t15 = { .type = TY_STRUCT, .struct_data = &t15d };
static struct type t16 = { .type = TY_ARRAY, .array.length = 9, .n = 1, .children = { &t0 } };
static struct field t17f[] = { { .type = &t16, .bitfield = -1, .offset = 0 } };
static struct struct_data t17d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t17f, .alignment = 1, .size = 9 };
static struct type t17 = { .type = TY_STRUCT, .struct_data = &t17d };
static struct type t18 = { .type = TY_ARRAY, .array.length = 13, .n = 1, .children = { &t0 } };
static struct field t19f[] = { { .type = &t18, .bitfield = -1, .offset = 0 } };
static struct struct_data t19d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t19f, .alignment = 1, .size = 13 };
static struct type t19 = { .type = TY_STRUCT, .struct_data = &t19d };
static struct type t20 = { .type = TY_ARRAY, .array.length = 16, .n = 1, .children = { &t0 } };
static struct field t21f[] = { { .type = &t20, .bitfield = -1, .offset = 0 } };
static struct struct_data t21d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t21f, .alignment = 1, .size = 16 };
static struct type t21 = { .type = TY_STRUCT, .struct_data = &t21d };
static struct type t22 = { .type = TY_ARRAY, .array.length = 17, .n = 1, .children = { &t0 } };
static struct field t23f[] = { { .type = &t22, .bitfield = -1, .offset = 0 } };
static struct struct_data t23d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t23f, .alignment = 1, .size = 17 };
static struct type t23 = { .type = TY_STRUCT, .struct_data = &t23d };
static struct type t24 = { .type = TY_SIMPLE, .simple = ST_CHAR };
static struct field t25f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 1 } };
static struct struct_data t25d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t25f, .alignment = 1, .size = 2 };
static struct type t25 = { .type = TY_STRUCT, .struct_data = &t25d };
static struct type t26 = { .type = TY_ARRAY, .array.length = 1, .n = 1, .children = { &t24 } };
static struct field t27f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t26, .bitfield = -1, .offset = 0 } };
static struct struct_data t27d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t27f, .alignment = 1, .size = 1 };
static struct type t27 = { .type = TY_STRUCT, .struct_data = &t27d };
static struct field t28f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 2 } };
static struct struct_data t28d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t28f, .alignment = 1, .size = 3 };
static struct type t28 = { .type = TY_STRUCT, .struct_data = &t28d };
static struct field t29f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t25, .bitfield = -1, .offset = 1 } };
static struct struct_data t29d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t29f, .alignment = 1, .size = 3 };
static struct type t29 = { .type = TY_STRUCT, .struct_data = &t29d };
static struct type t30 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t25 } };
static struct field t31f[] = { { .type = &t30, .bitfield = -1, .offset = 0 } };
static struct struct_data t31d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t31f, .alignment = 1, .size = 4 };
static struct type t31 = { .type = TY_STRUCT, .struct_data = &t31d };
static struct field t32f[] = { { .type = &t24, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 1 } };
static struct struct_data t32d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t32f, .alignment = 1, .size = 3 };
static struct type t32 = { .type = TY_STRUCT, .struct_data = &t32d };
static struct field t33f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 1 }, { .type = &t24, .bitfield = -1, .offset = 2 } };
static struct struct_data t33d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t33f, .alignment = 1, .size = 3 };
static struct type t33 = { .type = TY_STRUCT, .struct_data = &t33d };
static struct type t34 = { .type = TY_SIMPLE, .simple = ST_INT };
static struct field t35f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 1 }, { .type = &t34, .bitfield = -1, .offset = 4 } };
static struct struct_data t35d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t35f, .alignment = 4, .size = 8 };
static struct type t35 = { .type = TY_STRUCT, .struct_data = &t35d };
static struct type t36 = { .type = TY_SIMPLE, .simple = ST_LONG };
static struct field t37f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 1 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t37d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t37f, .alignment = 8, .size = 16 };
static struct type t37 = { .type = TY_STRUCT, .struct_data = &t37d };
static struct type t38 = { .type = TY_SIMPLE, .simple = ST_FLOAT };
static struct field t39f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 1 }, { .type = &t38, .bitfield = -1, .offset = 4 } };
static struct struct_data t39d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t39f, .alignment = 4, .size = 8 };
static struct type t39 = { .type = TY_STRUCT, .struct_data = &t39d };
static struct type t40 = { .type = TY_SIMPLE, .simple = ST_DOUBLE };
static struct field t41f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 1 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t41d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t41f, .alignment = 8, .size = 16 };
static struct type t41 = { .type = TY_STRUCT, .struct_data = &t41d };
static struct type t42 = { .type = TY_POINTER, .n = 1, .children = { &t24 } };
static struct field t43f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t24, .bitfield = -1, .offset = 1 }, { .type = &t42, .bitfield = -1, .offset = 8 } };
static struct struct_data t43d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t43f, .alignment = 8, .size = 16 };
static struct type t43 = { .type = TY_STRUCT, .struct_data = &t43d };
static struct field t44f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 } };
static struct struct_data t44d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t44f, .alignment = 4, .size = 8 };
static struct type t44 = { .type = TY_STRUCT, .struct_data = &t44d };
static struct type t45 = { .type = TY_ARRAY, .array.length = 3, .n = 1, .children = { &t34 } };
static struct field t46f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t45, .bitfield = -1, .offset = 0 } };
static struct struct_data t46d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t46f, .alignment = 4, .size = 12 };
static struct type t46 = { .type = TY_STRUCT, .struct_data = &t46d };
static struct field t47f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 } };
static struct struct_data t47d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t47f, .alignment = 4, .size = 8 };
static struct type t47 = { .type = TY_STRUCT, .struct_data = &t47d };
static struct field t48f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t44, .bitfield = -1, .offset = 4 } };
static struct struct_data t48d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t48f, .alignment = 4, .size = 12 };
static struct type t48 = { .type = TY_STRUCT, .struct_data = &t48d };
static struct type t49 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t44 } };
static struct field t50f[] = { { .type = &t49, .bitfield = -1, .offset = 0 } };
static struct struct_data t50d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t50f, .alignment = 4, .size = 16 };
static struct type t50 = { .type = TY_STRUCT, .struct_data = &t50d };
static struct field t51f[] = { { .type = &t34, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t51d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t51f, .alignment = 4, .size = 8 };
static struct type t51 = { .type = TY_STRUCT, .struct_data = &t51d };
static struct field t52f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t52d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t52f, .alignment = 4, .size = 12 };
static struct type t52 = { .type = TY_STRUCT, .struct_data = &t52d };
static struct field t53f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t53d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t53f, .alignment = 4, .size = 12 };
static struct type t53 = { .type = TY_STRUCT, .struct_data = &t53d };
static struct field t54f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t54d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t54f, .alignment = 8, .size = 16 };
static struct type t54 = { .type = TY_STRUCT, .struct_data = &t54d };
static struct field t55f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t55d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t55f, .alignment = 4, .size = 12 };
static struct type t55 = { .type = TY_STRUCT, .struct_data = &t55d };
static struct field t56f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t56d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t56f, .alignment = 8, .size = 16 };
static struct type t56 = { .type = TY_STRUCT, .struct_data = &t56d };
static struct field t57f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t34, .bitfield = -1, .offset = 4 }, { .type = &t42, .bitfield = -1, .offset = 8 } };
static struct struct_data t57d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t57f, .alignment = 8, .size = 16 };
static struct type t57 = { .type = TY_STRUCT, .struct_data = &t57d };
static struct field t58f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t58d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t58f, .alignment = 8, .size = 16 };
static struct type t58 = { .type = TY_STRUCT, .struct_data = &t58d };
static struct type t59 = { .type = TY_ARRAY, .array.length = 4, .n = 1, .children = { &t36 } };
static struct field t60f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t59, .bitfield = -1, .offset = 0 } };
static struct struct_data t60d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t60f, .alignment = 8, .size = 32 };
static struct type t60 = { .type = TY_STRUCT, .struct_data = &t60d };
static struct field t61f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t61d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t61f, .alignment = 8, .size = 16 };
static struct type t61 = { .type = TY_STRUCT, .struct_data = &t61d };
static struct field t62f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t58, .bitfield = -1, .offset = 8 } };
static struct struct_data t62d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t62f, .alignment = 8, .size = 24 };
static struct type t62 = { .type = TY_STRUCT, .struct_data = &t62d };
static struct type t63 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t58 } };
static struct field t64f[] = { { .type = &t63, .bitfield = -1, .offset = 0 } };
static struct struct_data t64d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t64f, .alignment = 8, .size = 32 };
static struct type t64 = { .type = TY_STRUCT, .struct_data = &t64d };
static struct field t65f[] = { { .type = &t36, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t65d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t65f, .alignment = 8, .size = 16 };
static struct type t65 = { .type = TY_STRUCT, .struct_data = &t65d };
static struct field t66f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t66d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t66f, .alignment = 8, .size = 24 };
static struct type t66 = { .type = TY_STRUCT, .struct_data = &t66d };
static struct field t67f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t67d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t67f, .alignment = 8, .size = 24 };
static struct type t67 = { .type = TY_STRUCT, .struct_data = &t67d };
static struct field t68f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t68d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t68f, .alignment = 8, .size = 24 };
static struct type t68 = { .type = TY_STRUCT, .struct_data = &t68d };
static struct field t69f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t69d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t69f, .alignment = 8, .size = 24 };
static struct type t69 = { .type = TY_STRUCT, .struct_data = &t69d };
static struct field t70f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t70d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t70f, .alignment = 8, .size = 24 };
static struct type t70 = { .type = TY_STRUCT, .struct_data = &t70d };
static struct field t71f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t36, .bitfield = -1, .offset = 8 }, { .type = &t42, .bitfield = -1, .offset = 16 } };
static struct struct_data t71d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t71f, .alignment = 8, .size = 24 };
static struct type t71 = { .type = TY_STRUCT, .struct_data = &t71d };
static struct field t72f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 } };
static struct struct_data t72d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t72f, .alignment = 4, .size = 8 };
static struct type t72 = { .type = TY_STRUCT, .struct_data = &t72d };
static struct type t73 = { .type = TY_ARRAY, .array.length = 5, .n = 1, .children = { &t38 } };
static struct field t74f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t73, .bitfield = -1, .offset = 0 } };
static struct struct_data t74d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t74f, .alignment = 4, .size = 20 };
static struct type t74 = { .type = TY_STRUCT, .struct_data = &t74d };
static struct field t75f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 } };
static struct struct_data t75d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t75f, .alignment = 4, .size = 8 };
static struct type t75 = { .type = TY_STRUCT, .struct_data = &t75d };
static struct field t76f[] = { { .type = &t38, .bitfield = -1, .offset = 0 }, { .type = &t72, .bitfield = -1, .offset = 4 } };
static struct struct_data t76d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t76f, .alignment = 4, .size = 12 };
static struct type t76 = { .type = TY_STRUCT, .struct_data = &t76d };
static struct type t77 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t72 } };
static struct field t78f[] = { { .type = &t77, .bitfield = -1, .offset = 0 } };
static struct struct_data t78d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t78f, .alignment = 4, .size = 16 };
static struct type t78 = { .type = TY_STRUCT, .struct_data = &t78d };
static struct field t79f[] = { { .type = &t38, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 4 } };
static struct struct_data t79d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t79f, .alignment = 4, .size = 8 };
static struct type t79 = { .type = TY_STRUCT, .struct_data = &t79d };
static struct field t80f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t24, .bitfield = -1, .offset = 8 } };
static struct struct_data t80d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t80f, .alignment = 4, .size = 12 };
static struct type t80 = { .type = TY_STRUCT, .struct_data = &t80d };
static struct field t81f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t34, .bitfield = -1, .offset = 8 } };
static struct struct_data t81d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t81f, .alignment = 4, .size = 12 };
static struct type t81 = { .type = TY_STRUCT, .struct_data = &t81d };
static struct field t82f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t36, .bitfield = -1, .offset = 8 } };
static struct struct_data t82d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t82f, .alignment = 8, .size = 16 };
static struct type t82 = { .type = TY_STRUCT, .struct_data = &t82d };
static struct field t83f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t38, .bitfield = -1, .offset = 8 } };
static struct struct_data t83d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t83f, .alignment = 4, .size = 12 };
static struct type t83 = { .type = TY_STRUCT, .struct_data = &t83d };
static struct field t84f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t84d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t84f, .alignment = 8, .size = 16 };
static struct type t84 = { .type = TY_STRUCT, .struct_data = &t84d };
static struct field t85f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t38, .bitfield = -1, .offset = 4 }, { .type = &t42, .bitfield = -1, .offset = 8 } };
static struct struct_data t85d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t85f, .alignment = 8, .size = 16 };
static struct type t85 = { .type = TY_STRUCT, .struct_data = &t85d };
static struct field t86f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t86d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t86f, .alignment = 8, .size = 16 };
static struct type t86 = { .type = TY_STRUCT, .struct_data = &t86d };
static struct type t87 = { .type = TY_ARRAY, .array.length = 6, .n = 1, .children = { &t40 } };
static struct field t88f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t87, .bitfield = -1, .offset = 0 } };
static struct struct_data t88d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t88f, .alignment = 8, .size = 48 };
static struct type t88 = { .type = TY_STRUCT, .struct_data = &t88d };
static struct field t89f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 } };
static struct struct_data t89d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t89f, .alignment = 8, .size = 16 };
static struct type t89 = { .type = TY_STRUCT, .struct_data = &t89d };
static struct field t90f[] = { { .type = &t40, .bitfield = -1, .offset = 0 }, { .type = &t86, .bitfield = -1, .offset = 8 } };
static struct struct_data t90d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t90f, .alignment = 8, .size = 24 };
static struct type t90 = { .type = TY_STRUCT, .struct_data = &t90d };
static struct type t91 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t86 } };
static struct field t92f[] = { { .type = &t91, .bitfield = -1, .offset = 0 } };
static struct struct_data t92d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t92f, .alignment = 8, .size = 32 };
static struct type t92 = { .type = TY_STRUCT, .struct_data = &t92d };
static struct field t93f[] = { { .type = &t40, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t93d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t93f, .alignment = 8, .size = 16 };
static struct type t93 = { .type = TY_STRUCT, .struct_data = &t93d };
static struct field t94f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t94d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t94f, .alignment = 8, .size = 24 };
static struct type t94 = { .type = TY_STRUCT, .struct_data = &t94d };
static struct field t95f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t95d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t95f, .alignment = 8, .size = 24 };
static struct type t95 = { .type = TY_STRUCT, .struct_data = &t95d };
static struct field t96f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t96d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t96f, .alignment = 8, .size = 24 };
static struct type t96 = { .type = TY_STRUCT, .struct_data = &t96d };
static struct field t97f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t97d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t97f, .alignment = 8, .size = 24 };
static struct type t97 = { .type = TY_STRUCT, .struct_data = &t97d };
static struct field t98f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t98d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t98f, .alignment = 8, .size = 24 };
static struct type t98 = { .type = TY_STRUCT, .struct_data = &t98d };
static struct field t99f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t40, .bitfield = -1, .offset = 8 }, { .type = &t42, .bitfield = -1, .offset = 16 } };
static struct struct_data t99d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t99f, .alignment = 8, .size = 24 };
static struct type t99 = { .type = TY_STRUCT, .struct_data = &t99d };
static struct field t100f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 } };
static struct struct_data t100d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t100f, .alignment = 8, .size = 16 };
static struct type t100 = { .type = TY_STRUCT, .struct_data = &t100d };
static struct type t101 = { .type = TY_ARRAY, .array.length = 7, .n = 1, .children = { &t42 } };
static struct field t102f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t101, .bitfield = -1, .offset = 0 } };
static struct struct_data t102d = { .is_complete = 1, .is_union = 1, .packing = 0, .n = 2, .fields = t102f, .alignment = 8, .size = 56 };
static struct type t102 = { .type = TY_STRUCT, .struct_data = &t102d };
static struct field t103f[] = { { .type = &t4, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 } };
static struct struct_data t103d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t103f, .alignment = 8, .size = 16 };
static struct type t103 = { .type = TY_STRUCT, .struct_data = &t103d };
static struct field t104f[] = { { .type = &t42, .bitfield = -1, .offset = 0 }, { .type = &t100, .bitfield = -1, .offset = 8 } };
static struct struct_data t104d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t104f, .alignment = 8, .size = 24 };
static struct type t104 = { .type = TY_STRUCT, .struct_data = &t104d };
static struct type t105 = { .type = TY_ARRAY, .array.length = 2, .n = 1, .children = { &t100 } };
static struct field t106f[] = { { .type = &t105, .bitfield = -1, .offset = 0 } };
static struct struct_data t106d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 1, .fields = t106f, .alignment = 8, .size = 32 };
static struct type t106 = { .type = TY_STRUCT, .struct_data = &t106d };
static struct field t107f[] = { { .type = &t42, .bitfield = -1, .offset = 0 }, { .type = &t5, .bitfield = -1, .offset = 8 } };
static struct struct_data t107d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 2, .fields = t107f, .alignment = 8, .size = 16 };
static struct type t107 = { .type = TY_STRUCT, .struct_data = &t107d };
static struct field t108f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t24, .bitfield = -1, .offset = 16 } };
static struct struct_data t108d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t108f, .alignment = 8, .size = 24 };
static struct type t108 = { .type = TY_STRUCT, .struct_data = &t108d };
static struct field t109f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t34, .bitfield = -1, .offset = 16 } };
static struct struct_data t109d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t109f, .alignment = 8, .size = 24 };
static struct type t109 = { .type = TY_STRUCT, .struct_data = &t109d };
static struct field t110f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t36, .bitfield = -1, .offset = 16 } };
static struct struct_data t110d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t110f, .alignment = 8, .size = 24 };
static struct type t110 = { .type = TY_STRUCT, .struct_data = &t110d };
static struct field t111f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t38, .bitfield = -1, .offset = 16 } };
static struct struct_data t111d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t111f, .alignment = 8, .size = 24 };
static struct type t111 = { .type = TY_STRUCT, .struct_data = &t111d };
static struct field t112f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t40, .bitfield = -1, .offset = 16 } };
static struct struct_data t112d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t112f, .alignment = 8, .size = 24 };
static struct type t112 = { .type = TY_STRUCT, .struct_data = &t112d };
static struct field t113f[] = { { .type = &t0, .bitfield = -1, .offset = 0 }, { .type = &t42, .bitfield = -1, .offset = 8 }, { .type = &t42, .bitfield = -1, .offset = 16 } };
static struct struct_data t113d = { .is_complete = 1, .is_union = 0, .packing = 0, .n = 3, .fields = t113f, .alignment = 8, .size = 24 };
static struct type t113 = { .type = TY_STRUCT, .struct_data = &t113d };
static const struct row rows[] = {
{ &t0, 1, 1, { P_GP } },
{ &t1, 1, 1, { P_GP } },
{ &t3, 1, 1, { P_GP } },
{ &t5, 2, 1, { P_GP } },
{ &t7, 3, 1, { P_GP } },
{ &t9, 4, 1, { P_GP } },
{ &t11, 5, 1, { P_GP } },
{ &t13, 7, 1, { P_GP } },
{ &t15, 8, 1, { P_GP } },
{ &t17, 9, 2, { P_GP, P_GP } },
{ &t19, 13, 2, { P_GP, P_GP } },
{ &t21, 16, 2, { P_GP, P_GP } },
{ &t23, 17, 1, { P_MEM } },
{ &t25, 2, 1, { P_GP } },
{ &t27, 1, 1, { P_GP } },
{ &t28, 3, 1, { P_GP } },
{ &t29, 3, 1, { P_GP } },
{ &t31, 4, 1, { P_GP } },
{ &t32, 3, 1, { P_GP } },
{ &t33, 3, 1, { P_GP } },
{ &t35, 8, 1, { P_GP } },
{ &t37, 16, 2, { P_GP, P_GP } },
{ &t39, 8, 1, { P_GP } },
{ &t41, 16, 2, { P_GP, P_SSE } },
{ &t43, 16, 2, { P_GP, P_GP } },
{ &t44, 8, 1, { P_GP } },
{ &t46, 12, 2, { P_GP, P_GP } },
{ &t47, 8, 1, { P_GP } },
{ &t48, 12, 2, { P_GP, P_GP } },
{ &t50, 16, 2, { P_GP, P_GP } },
{ &t51, 8, 1, { P_GP } },
{ &t52, 12, 2, { P_GP, P_GP } },
{ &t53, 12, 2, { P_GP, P_GP } },
{ &t54, 16, 2, { P_GP, P_GP } },
{ &t55, 12, 2, { P_GP, P_SSE } },
{ &t56, 16, 2, { P_GP, P_SSE } },
{ &t57, 16, 2, { P_GP, P_GP } },
{ &t58, 16, 2, { P_GP, P_GP } },
{ &t60, 32, 1, { P_MEM } },
{ &t61, 16, 2, { P_GP, P_GP } },
{ &t62, 24, 1, { P_MEM } },
{ &t64, 32, 1, { P_MEM } },
{ &t65, 16, 2, { P_GP, P_GP } },
{ &t66, 24, 1, { P_MEM } },
{ &t67, 24, 1, { P_MEM } },
{ &t68, 24, 1, { P_MEM } },
{ &t69, 24, 1, { P_MEM } },
{ &t70, 24, 1, { P_MEM } },
{ &t71, 24, 1, { P_MEM } },
{ &t72, 8, 1, { P_GP } },
{ &t74, 20, 1, { P_MEM } },
{ &t75, 8, 1, { P_GP } },
{ &t76, 12, 2, { P_GP, P_SSE } },
{ &t78, 16, 2, { P_GP, P_GP } },
{ &t79, 8, 1, { P_GP } },
{ &t80, 12, 2, { P_GP, P_GP } },
{ &t81, 12, 2, { P_GP, P_GP } },
{ &t82, 16, 2, { P_GP, P_GP } },
{ &t83, 12, 2, { P_GP, P_SSE } },
{ &t84, 16, 2, { P_GP, P_SSE } },
{ &t85, 16, 2, { P_GP, P_GP } },
{ &t86, 16, 2, { P_GP, P_SSE } },
{ &t88, 48, 1, { P_MEM } },
{ &t89, 16, 2, { P_GP, P_SSE } },
{ &t90, 24, 1, { P_MEM } },
{ &t92, 32, 1, { P_MEM } },
{ &t93, 16, 2, { P_SSE, P_GP } },
{ &t94, 24, 1, { P_MEM } },
{ &t95, 24, 1, { P_MEM } },
{ &t96, 24, 1, { P_MEM } },
{ &t97, 24, 1, { P_MEM } },
{ &t98, 24, 1, { P_MEM } },
{ &t99, 24, 1, { P_MEM } },
{ &t100, 16, 2, { P_GP, P_GP } },
{ &t102, 56, 1, { P_MEM } },
{ &t103, 16, 2, { P_GP, P_GP } },
{ &t104, 24, 1, { P_MEM } },
{ &t106, 32, 1, { P_MEM } },
{ &t107, 16, 2, { P_GP, P_GP } },
{ &t108, 24, 1, { P_MEM } },
{ &t109, 24, 1, { P_MEM } },
{ &t110, 24, 1, { P_MEM } },
{ &t111, 24, 1, { P_MEM } },
{ &t112, 24, 1, { P_MEM } },
{ &t113, 24, 1, { P_MEM } }
};
#endif
