From 9da54e68d8205b60b9327a178fdfadff07bbe66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 001/132] fix: convert float to unsigned int through a 64-bit
 conversion

---
 src/emit_x64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 1f03a6c..3c491de 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2915,12 +2915,16 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 2, 4, 0x2c);
             }break;
-            case IR_cast_f32_to_s32: case IR_cast_f32_to_s32_lhs:
-            case IR_cast_f32_to_u32: case IR_cast_f32_to_u32_lhs:{
+            case IR_cast_f32_to_s32: case IR_cast_f32_to_s32_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 4, 0x2c);
             }break;
+            case IR_cast_f32_to_u32: case IR_cast_f32_to_u32_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 8, 0x2c);
+            }break;
             case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:
             case IR_cast_f32_to_u64: case IR_cast_f32_to_u64_lhs:{
                 ir_arena_at += sizeof(struct ir);
-- 
2.43.0


From 1bb8ca78c0abe63bf024d49012852f77279f5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 002/132] fix: perform '/=' and '%=' in the common type when
 the signedness of the operands differs

---
 src/parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 5056f2e..ce6f55f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7092,6 +7092,9 @@ case NUMBER_KIND_##type:{ \
                     }
                 }
                 
+                // Punt if the signedness differs, because the operation might have to be performed using the signedness of the rhs.
+                if(lhs->resolved_type->kind == AST_integer_type && type_is_signed(lhs->resolved_type) != type_is_signed(rhs->resolved_type)) punt = true;
+                
                 if(lhs->resolved_type == &globals.typedef_Bool || (lhs->resolved_type->kind == AST_bitfield_type)) punt = 1;
                 
                 if(punt){
@@ -7193,6 +7196,9 @@ case NUMBER_KIND_##type:{ \
                     }
                 }
                 
+                // Punt if the signedness differs, because the division might have to be performed using the signedness of the rhs.
+                if(lhs_type->kind == AST_integer_type && rhs_type->kind == AST_integer_type && type_is_signed(lhs_type) != type_is_signed(rhs_type)) punt = true;
+                
                 if(lhs->resolved_type == &globals.typedef_Bool || lhs->resolved_type->kind == AST_bitfield_type) punt = 1;
                 
                 if(punt){
-- 
2.43.0


From 320ba1628e9853af29de0bc11c20c607bb612173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 003/132] fix: use the value of a floating point assignment as
 an operand

The result of an assignment is loaded into a general purpose register, even
if the type is float or double. Using it as an operand of an arithmetic
operator, comparison, negation or conversion used the wrong register file
(asserting, or silently reading an unrelated xmm register).
---
 src/emit_x64.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 3c491de..bfda621 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1372,6 +1372,21 @@ func struct emit_location *emit_load_into_specific_gpr(struct context *context,
     }
 }
 
+// 
+// The result of an assignment is loaded into a general purpose register, independent of its type.
+// Hence, before we can use a location as a floating point operand, we might have to move it into an xmm register.
+// 
+func struct emit_location *maybe_move_loaded_gpr_to_xmm(struct context *context, struct emit_location *loc){
+    if(loc->state != EMIT_LOCATION_loaded || loc->register_kind != REGISTER_KIND_gpr) return loc;
+    
+    struct emit_location *ret = emit_location_loaded(context, REGISTER_KIND_xmm, allocate_register(context, REGISTER_KIND_xmm), loc->size);
+    
+    // movd / movq ret, loc
+    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(0x6E), ret->loaded_register, loc->loaded_register, loc->size);
+    free_emit_location(context, loc);
+    return ret;
+}
+
 func struct emit_location *emit_load_float_into_specific_register(struct context *context, struct emit_location *loc, enum register_encoding reg){
     
     
@@ -1857,7 +1872,8 @@ func struct emit_location *emit_binary_op_xmm(struct context *context, struct em
     
     assert(lhs->size == rhs->size);
     
-    lhs = emit_load_float(context, lhs);
+    rhs = maybe_move_loaded_gpr_to_xmm(context, rhs);
+    lhs = emit_load_float(context, maybe_move_loaded_gpr_to_xmm(context, lhs));
     
     struct prefixes sse_prefix = get_sse_prefix_for_scalar(lhs->size);
     
@@ -1877,7 +1893,7 @@ func struct emit_location *emit_compound_assignment_xmm(struct context *context,
     assert(lhs->state == EMIT_LOCATION_register_relative);
     emit_location_prevent_spilling(context, lhs);
     
-    rhs = emit_load_float(context, rhs);
+    rhs = emit_load_float(context, maybe_move_loaded_gpr_to_xmm(context, rhs));
     emit_location_prevent_spilling(context, rhs);
     struct emit_location *lhs_loaded = emit_load_float(context, lhs);
     
@@ -2541,6 +2557,7 @@ struct emit_location *emit_integer_cast(struct context *context, struct emit_loc
 }
 
 struct emit_location *emit_float_cast(struct context *context, struct emit_location *loc, enum legacy_prefixes prefix, int size, int big_size, u8 opcode){
+    loc = maybe_move_loaded_gpr_to_xmm(context, loc);
     struct emit_location *loaded = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), size);
     
     if(loc->state == EMIT_LOCATION_register_relative){
@@ -2793,7 +2810,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
             case IR_cast_f32_to_f64: case IR_cast_f32_to_f64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
-                struct emit_location *loc = emit_location_stack[stack_index];
+                struct emit_location *loc = maybe_move_loaded_gpr_to_xmm(context, emit_location_stack[stack_index]);
                 loc->size = 8;
                 
                 // cvtss2sd - convert_scalar_single_to_scalar_double
@@ -2814,7 +2831,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
             case IR_cast_f64_to_f32: case IR_cast_f64_to_f32_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
-                struct emit_location *loc = emit_location_stack[stack_index];
+                struct emit_location *loc = maybe_move_loaded_gpr_to_xmm(context, emit_location_stack[stack_index]);
                 loc->size = 4;
                 
                 // cvtss2sd - convert_scalar_single_to_scalar_double
@@ -3878,7 +3895,8 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 
                 struct emit_location *result;
                 if(ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64){
-                    lhs = emit_load_float(context, lhs);
+                    rhs = maybe_move_loaded_gpr_to_xmm(context, rhs);
+                    lhs = emit_load_float(context, maybe_move_loaded_gpr_to_xmm(context, lhs));
                     
                     struct prefixes prefix = create_prefixes((ir_type == IR_TYPE_f32) ? ASM_PREFIX_NON_PACKED_OP_float : ASM_PREFIX_NON_PACKED_OP_double);
                     
@@ -4221,7 +4239,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
             case IR_negate_f32: case IR_negate_f64:{
                 ir_arena_at += sizeof(struct ir);
                 
-                struct emit_location *loaded = emit_load_float(context, emit_location_stack[emit_location_stack_at-1]);
+                struct emit_location *loaded = emit_load_float(context, maybe_move_loaded_gpr_to_xmm(context, emit_location_stack[emit_location_stack_at-1]));
                 emit_location_prevent_spilling(context, loaded);
                 
                 // 
-- 
2.43.0


From 2bc5a48a609c85bb1465d84e08e6f8b1eca39c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 004/132] fix: shifting a global in place by a constant
 addressed the wrong bytes

For 'global <<= constant' the rip-relative displacement was patched before
the immediate byte was emitted, so the instruction addressed global + 1.
---
 src/emit_x64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index bfda621..c0ac522 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2154,14 +2154,15 @@ func struct emit_location *emit_shift_or_rotate__internal(struct context *contex
         }
         
         if(compound){
-            emit_register_relative_extended(context, prefixes, one_byte_opcode(inst), reg_extension, lhs_loc);
+            // @note: The immediate has to be emitted here, as it is part of the instruction a rip-relative 'lhs_loc' is relative to the end of.
+            emit_register_relative_immediate(context, prefixes, one_byte_opcode(inst), reg_extension, lhs_loc, rhs_loc);
             ret = lhs_loc;
         }else{
             struct emit_location *lhs = emit_load_gpr(context, lhs_loc);
             emit_reg_extended_op(context, prefixes, one_byte_opcode(inst), reg_extension, lhs);
             ret = lhs;
+            emit(rhs_loc->value);
         }
-        emit(rhs_loc->value);
     }else{
         struct emit_location *rhs;
         if(rhs_loc->state == EMIT_LOCATION_loaded && rhs_loc->loaded_register == REGISTER_C){
-- 
2.43.0


From ada3238aacf8a2d96bddfeedab055fc01a8f21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 005/132] fix: pass the value of a floating point assignment as
 an argument

An assignment result lives in a general purpose register; comparing only the
register number with the expected xmm register could leave it there, or
assert when it could not be spilled.
---
 src/emit_x64.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index c0ac522..06ea79f 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1402,13 +1402,14 @@ func struct emit_location *emit_load_float_into_specific_register(struct context
     allocate_specific_register(context, REGISTER_KIND_xmm, reg);
     struct emit_location *ret = emit_location_loaded(context, REGISTER_KIND_xmm, reg, loc->size);
     
-    // @cleanup: This is stupid, we should rework the back-end to keep track of the register_kind again.
-    if(loc->state == EMIT_LOCATION_loaded && loc->register_kind != REGISTER_KIND_xmm){
-        spill_register(context, REGISTER_KIND_gpr, loc->loaded_register);
-    }
-    
     switch(loc->state){
         case EMIT_LOCATION_loaded:{
+            if(loc->register_kind == REGISTER_KIND_gpr){
+                // movd / movq ret, loc
+                emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(0x6E), reg, loc->loaded_register, loc->size);
+                break;
+            }
+            
             assert(loc->register_kind == REGISTER_KIND_xmm);
             emit_register_register(context, sse_prefix, two_byte_opcode(MOVE_UNALIGNED_XMM_REGM), ret, loc);
         }break;
@@ -3526,7 +3527,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                     
                     enum register_encoding expected_register = argument_registers[expected_register_kind][returns_big_struct + argument_index];
                     
-                    if(argument->state == EMIT_LOCATION_loaded && argument->loaded_register == expected_register){
+                    if(argument->state == EMIT_LOCATION_loaded && argument->register_kind == expected_register_kind && argument->loaded_register == expected_register){
                         // The argument is already in the correct slot.
                         emit_location_prevent_spilling(context, argument);
                         argument_locations[argument_index] = argument;
-- 
2.43.0


From 339a05364efcf037e953378a5d1d8f118c2fe2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 006/132] fix: storing to a bit-field as wide as its 64-bit
 type

---
 src/emit_x64.c | 4 ++--
 src/main.c     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 06ea79f..646fee7 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2057,7 +2057,7 @@ struct emit_location *emit_store_bitfield(struct context *context, struct ast_bi
     emit_location_prevent_spilling(context, rhs_loaded);
     
     // Truncate the right hand side.
-    struct emit_location *mask = emit_location_immediate(context, (1ull << bitfield->width) - 1, lhs->size);
+    struct emit_location *mask = emit_location_immediate(context, (0xffffffffffffffffull >> (64 - bitfield->width)), lhs->size);
     struct emit_location *mask_loaded = emit_load_gpr(context, mask);
     emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), rhs_loaded, mask_loaded);
     free_emit_location(context, mask_loaded);
@@ -2072,7 +2072,7 @@ struct emit_location *emit_store_bitfield(struct context *context, struct ast_bi
     struct emit_location *lhs_loaded = emit_load_gpr(context, lhs);
     emit_location_prevent_spilling(context, lhs_loaded);
     
-    mask = emit_location_immediate(context, ~(((1ull << bitfield->width) - 1) << bitfield->bit_index), lhs->size);
+    mask = emit_location_immediate(context, ~((0xffffffffffffffffull >> (64 - bitfield->width)) << bitfield->bit_index), lhs->size);
     mask_loaded = emit_load_gpr(context, mask);
     emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), lhs_loaded, mask_loaded);
     free_emit_location(context, mask_loaded);
diff --git a/src/main.c b/src/main.c
index a4b32f0..863241a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2493,7 +2493,7 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                                 struct ast_bitfield_type *bitfield = cast(struct ast_bitfield_type *)lhs_type;
                                 value <<= bitfield->bit_index;
                                 
-                                u64 mask = ~(((1ull << bitfield->width) - 1) << bitfield->bit_index);
+                                u64 mask = ~((0xffffffffffffffffull >> (64 - bitfield->width)) << bitfield->bit_index);
                                 u64 new_value = (mask & old_value) | value;
                                 memcpy(data + offset, &new_value, lhs_type->size);
                             }else{
-- 
2.43.0


From 903723a330c07f98411ce02807714af57deb2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 007/132] fix: lay out unnamed, zero-width and union bit-fields

---
 src/parse.c | 66 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index ce6f55f..5a68357 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -422,7 +422,7 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
                     }
                 }
             }else{
-                u64 max_value = (1ull << bitfield->width) - 1;
+                u64 max_value = 0xffffffffffffffffull >> (64 - bitfield->width);
                 
                 if(type_is_signed(cast_what->resolved_type)){
                     s64 value = integer_literal_as_u64(cast_what);
@@ -7955,6 +7955,7 @@ case TOKEN_##type_name:{                                                 \
                     
                     struct ast_type *current_bitfield_type = null;
                     s64 current_bitfield_index = 0;
+                    smm current_bitfield_offset = 0; // The offset of the storage unit the current bitfield is in.
                     
                     struct token *had_array_of_unknown_size = null;
                     
@@ -8055,6 +8056,8 @@ case TOKEN_##type_name:{                                                 \
                             
                             // :bitfields :parse_bitfields
                             b32 this_was_a_bitfield_type_that_fits = false;
+                            b32 is_bitfield = false;
+                            b32 is_unnamed_bitfield = false;
                             if(peek_token(context, TOKEN_colon)){
                                 struct token *colon = next_token(context);
                                 
@@ -8074,6 +8077,19 @@ case TOKEN_##type_name:{                                                 \
                                 //  that no further bit-field is to be packed into the unit in which the previous 
                                 //  bitfield, if any, was placed."
                                 if(width == 0){
+                                    if(current_bitfield_type){
+                                        // 
+                                        // If there was a bitfield before this one, the next member starts at the alignment of the type.
+                                        // 
+                                        if(is_union){
+                                            size = max_of(declarator.type->size, size);
+                                        }else{
+                                            smm unit_alignment = is_packed ? 1 : min_of(declarator.type->alignment, context->pragma_alignment);
+                                            size = align_up(size, unit_alignment);
+                                            alignment = max_of(unit_alignment, alignment);
+                                        }
+                                    }
+                                    
                                     current_bitfield_type = null;
                                     current_bitfield_index = 0;
                                     
@@ -8095,15 +8111,11 @@ case TOKEN_##type_name:{                                                 \
                                 }
                                 
                                 u64 bitfield_base = current_bitfield_index;
+                                is_bitfield = true;
                                 
-                                if(current_bitfield_type && current_bitfield_type->size == declarator.type->size && current_bitfield_index + width <= declarator.type->size * 8){
-                                    // 
-                                    // If there was no prior named bitfield, it was not a bitfield that fits. This can happen for e.g.:
-                                    //   
-                                    //   struct { int : 4; int a: 4; };
-                                    // 
-                                    if(compound->amount_of_members) this_was_a_bitfield_type_that_fits = true;
-                                    
+                                // All members of a union start at the first bit.
+                                if(!is_union && current_bitfield_type && current_bitfield_type->size == declarator.type->size && current_bitfield_index + width <= declarator.type->size * 8){
+                                    this_was_a_bitfield_type_that_fits = true;
                                     current_bitfield_index += width;
                                 }else{
                                     bitfield_base = 0;
@@ -8123,23 +8135,19 @@ case TOKEN_##type_name:{                                                 \
                                     //     } bitfield = {1, 1};
                                     // 
                                     // Should have 'bitfield.a == 1' and 'bitfield.b == 1'.
+                                    // It still occupies its bits, though.
                                     // 
+                                    is_unnamed_bitfield = true;
+                                }else{
+                                    struct ast_bitfield_type *bitfield = parser_type_push(context, bitfield_type);
+                                    bitfield->width      = to_u32(width);
+                                    bitfield->bit_index  = to_u32(bitfield_base);
+                                    bitfield->base_type  = declarator.type;
+                                    bitfield->base.size  = declarator.type->size;
+                                    bitfield->base.alignment = declarator.type->alignment;
                                     
-                                    // If there is another thing after this continue the declarator loop. 
-                                    if(peek_token(context, TOKEN_comma)) continue;
-                                    
-                                    // No more declarators.
-                                    break;
+                                    declarator.type = &bitfield->base;
                                 }
-                                
-                                struct ast_bitfield_type *bitfield = parser_type_push(context, bitfield_type);
-                                bitfield->width      = to_u32(width);
-                                bitfield->bit_index  = to_u32(bitfield_base);
-                                bitfield->base_type  = declarator.type;
-                                bitfield->base.size  = declarator.type->size;
-                                bitfield->base.alignment = declarator.type->alignment;
-                                
-                                declarator.type = &bitfield->base;
                             }else{
                                 current_bitfield_type = null;
                                 current_bitfield_index = 0;
@@ -8159,10 +8167,9 @@ case TOKEN_##type_name:{                                                 \
                             
                             if(this_was_a_bitfield_type_that_fits){
                                 // 
-                                // Copy the offset from the previous bitfield type.
+                                // Use the offset of the storage unit the previous bitfield is in.
                                 // 
-                                assert(compound->members[compound->amount_of_members-1].type->kind == AST_bitfield_type);
-                                offset_in_type = compound->members[compound->amount_of_members-1].offset_in_type;
+                                offset_in_type = current_bitfield_offset;
                             }else if(is_union){
                                 offset_in_type = 0;
                                 size = max_of(declarator.type->size, size);
@@ -8176,10 +8183,13 @@ case TOKEN_##type_name:{                                                 \
                                 size += declarator.type->size;
                             }
                             
+                            if(is_bitfield) current_bitfield_offset = offset_in_type;
+                            
                             // The alignment is the strictest alignment for any of the members.
-                            alignment = max_of(decl_alignment, alignment);
+                            // Bitfields do not contribute to the alignment of a union.
+                            if(!is_union || !is_bitfield) alignment = max_of(decl_alignment, alignment);
                             
-                            if(!context->should_exit_statement){
+                            if(!context->should_exit_statement && !is_unnamed_bitfield){
                                 
                                 if(declarator.ident != globals.invalid_identifier_token){
                                     
-- 
2.43.0


From 174b3088a5e7bd09818dc0535106ab6ffc275358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 008/132] fix: keep user-specified alignments of member types
 under pragma pack

---
 src/parse.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 5a68357..d9b5394 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8153,16 +8153,26 @@ case TOKEN_##type_name:{                                                 \
                                 current_bitfield_index = 0;
                             }
                             
+                            // An array is user aligned if its elements are.
+                            struct ast_type *element_type = declarator.type;
+                            while(element_type->kind == AST_array_type) element_type = ((struct ast_array_type *)element_type)->element_type;
+                            b32 is_user_aligned = (element_type->flags & TYPE_FLAG_is_user_aligned) != 0;
+                            
                             smm decl_alignment = declarator.type->alignment;
-                            if(struct_specifiers.alignment){ 
-                                decl_alignment = struct_specifiers.alignment; // Member specifiers are the most inner so they should take precedence.
-                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
-                            }else if(is_packed){
+                            if(is_packed){
                                 decl_alignment = 1; // If the struct is __declspec(packed), overwrite the _natural_ alignment.
-                            }else if(!(declarator.type->flags & TYPE_FLAG_is_user_aligned) && decl_alignment > context->pragma_alignment){
+                            }else if(is_user_aligned){
+                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
+                            }else if(decl_alignment > context->pragma_alignment){
                                 decl_alignment = context->pragma_alignment;
                             }
                             
+                            if(struct_specifiers.alignment){ 
+                                // Member specifiers are the most inner so they should take precedence, but they can only raise the alignment.
+                                decl_alignment = max_of(struct_specifiers.alignment, decl_alignment);
+                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
+                            }
+                            
                             smm offset_in_type;
                             
                             if(this_was_a_bitfield_type_that_fits){
-- 
2.43.0


From 589159802a73122baf247228e5cd9bde71c6e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 009/132] fix: shift-assign to a bit-field

---
 src/parse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index d9b5394..b972145 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4091,7 +4091,13 @@ func void punt_compound_assignment(struct context *context, struct expr *lhs, st
     
     struct expr dup_expr = {.ir = dup, site, lhs->resolved_type, lhs->defined_type};
     
-    maybe_insert_arithmetic_conversion_casts(context, &dup_expr, rhs);
+    if(ast_kind == AST_left_shift_assignment || ast_kind == AST_right_shift_assignment){
+        // The operands of a shift are promoted individually and the shift itself requires the rhs to be a 'u8'.
+        maybe_insert_integer_promotion_cast(context, AST_cast_lhs, &dup_expr);
+        push_cast(context, AST_cast, &globals.typedef_u8, null, rhs);
+    }else{
+        maybe_insert_arithmetic_conversion_casts(context, &dup_expr, rhs);
+    }
     
     enum ir_type ir_type = ir_type_from_type(dup_expr.resolved_type);
     enum ir_kind op_ir_kind;
-- 
2.43.0


From 2865c66456d8c16aeecd504449c528398b20aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 010/132] fix: evaluate the index last for subscripts like
 'index[pointer]'

---
 src/main.c  | 8 ++++++++
 src/parse.c | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 863241a..2a43557 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2377,6 +2377,14 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 ir_stack[ir_stack_at-2].is_address = 1;
             }break;
             
+            case IR_swap_lhs_rhs:{
+                ir_offset += sizeof(struct ir);
+                
+                struct evaluate_static_initializer_ir_stack_node temp = ir_stack[ir_stack_at-1];
+                ir_stack[ir_stack_at-1] = ir_stack[ir_stack_at-2];
+                ir_stack[ir_stack_at-2] = temp;
+            }break;
+            
             // 
             // Binary expressions:
             // 
diff --git a/src/parse.c b/src/parse.c
index b972145..4d40628 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1833,7 +1833,7 @@ func void push_nodes_for_subscript(struct context *context, struct expr *lhs, st
         
         struct ast_array_type *array = (struct ast_array_type *)lhs_type;
         
-        if(lhs->ir->kind == IR_pointer_literal_deref && index->ir->kind == IR_integer_literal){
+        if(lhs->ir->kind == IR_pointer_literal_deref && index->ir->kind == IR_integer_literal && lhs->ir < index->ir){
             
             // Transform
             //    (*((int (*) [])0))[3]
@@ -5177,6 +5177,9 @@ case NUMBER_KIND_##type:{ \
                     struct expr temp = operand;
                     operand = index;
                     index = temp;
+                    
+                    // The subscript expects the index to be evaluated last.
+                    push_ir(context, IR_swap_lhs_rhs);
                 }
                 
                 if(!check_unary_for_basic_types(context, index.resolved_type, CHECK_integer, test)) return index;
-- 
2.43.0


From 4059910967fc4a1fbf62f1c5362afb19e3cd5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 011/132] fix: divide pointer differences as signed numbers

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 4d40628..18b496f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -6128,7 +6128,7 @@ case NUMBER_KIND_##type:{ \
                         struct ast_pointer_type *pointer = cast(struct ast_pointer_type *)op_lhs->resolved_type;
                         if(pointer->pointer_to->size != 1){ // @cleanup: 0?
                             ast_push_s64_literal(context, pointer->pointer_to->size, null);
-                            operand.ir = push_ir(context, IR_divide_u64);
+                            operand.ir = push_ir(context, IR_divide_s64);
                         }
                         
                         operand.resolved_type = &globals.typedef_s64;
-- 
2.43.0


From 93b2199883d1257d9984edcf55cafdae8d4caef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 012/132] fix: save spilled registers on both paths of a 64-bit
 unsigned to float conversion

---
 src/emit_x64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 646fee7..3fb6daa 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3172,6 +3172,9 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 loc = emit_load_gpr(context, loc);
                 emit_location_prevent_spilling(context, loc);
                 
+                // allocate the register for the copy here, if this spills a register it has to happen on both paths.
+                enum register_encoding saved_gpr = allocate_register(context, REGISTER_KIND_gpr);
+                
                 // test the value
                 emit_register_register(context, no_prefix(), one_byte_opcode(TEST_REGM_REG), loc, loc);
                 
@@ -3188,7 +3191,6 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 emit_end_jumps(context, msb_set_jump);
                 
                 // copy the value
-                enum register_encoding saved_gpr = allocate_register(context, REGISTER_KIND_gpr);
                 struct emit_location *saved = emit_load_into_specific_gpr(context, loc, saved_gpr);
                 
                 // shift the value to the right by 1.
-- 
2.43.0


From ef14ca0f70577a63198c8edbebebba091700aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 013/132] fix: mask the value of a constant bit-field
 initializer to the width of the bit-field

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 2a43557..a597005 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2499,6 +2499,7 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                                 memcpy(&old_value, data + offset, lhs_type->size);
                                 
                                 struct ast_bitfield_type *bitfield = cast(struct ast_bitfield_type *)lhs_type;
+                                value &= (0xffffffffffffffffull >> (64 - bitfield->width)); // Only the low 'width' bits fit, e.g. for negative values.
                                 value <<= bitfield->bit_index;
                                 
                                 u64 mask = ~((0xffffffffffffffffull >> (64 - bitfield->width)) << bitfield->bit_index);
-- 
2.43.0


From ab2c8e6de864bda2fe9cb033d935685166a69ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 014/132] fix: apply the offset in pointers into string
 literals in static initializers

---
 src/coff_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 36bb330..263baa5 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1721,6 +1721,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     struct ir_string_literal *lit = (struct ir_string_literal *)patch->source;
                     
                     source_location = (smm)lit->relative_virtual_address + image_optional_header->image_base;
+                    source_location += patch->location_offset_in_source_declaration;
                 }
                 
                 *cast(smm *)memory_location = source_location;
-- 
2.43.0


From 4ad7d80a480ae60b1e744175cbdb6417a7b02553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 015/132] fix: count partially initialized elements when sizing
 an array of unknown size

---
 src/parse.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 18b496f..a158ed8 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2600,6 +2600,22 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
             }
         }
         
+        // :trailing_arrays
+        // 
+        // If we are initializing an array of unknown size, we are at the trailing 
+        // array member of the structure, otherwise the parsing code would have rejected
+        // the structure. Note that the initializer might not have finished the current element.
+        // 
+        for(struct designator_node *node = designator_stack.first; node; node = node->next){
+            if(node->lhs_type->kind != AST_array_type) continue;
+            
+            struct ast_array_type *array = (struct ast_array_type *)node->lhs_type;
+            if(array->is_of_unknown_size){
+                smm array_size = (node->array_at + 1) * array->element_type->size; // @cleanup: overflow
+                trailing_initializer_size = max_of(trailing_initializer_size, array_size);
+            }
+        }
+        
         int at_end = peek_token(context, TOKEN_closed_curly) != 0;
         
         while(true){
@@ -2631,23 +2647,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                 node->array_at++;
                 node->offset_at += array->element_type->size;
                 
-                if(array->is_of_unknown_size){
-                    
-                    // :trailing_arrays
-                    // 
-                    // If we are initializing an array of unknown size, we are at the trailing 
-                    // array member of the structure, otherwise the parsing code would have rejected
-                    // the structure.
-                    // 
-                    
-                    smm amount_of_elements = node->array_at;
-                    smm element_size = array->element_type->size;
-                    
-                    smm array_size = amount_of_elements * element_size; // @cleanup: overflow
-                    
-                    trailing_initializer_size = max_of(trailing_initializer_size, array_size);
-                    break;
-                }
+                if(array->is_of_unknown_size) break;
                 if(!at_end && (node->array_at < array->amount_of_elements)) break;
             }
             
-- 
2.43.0


From 457623a30c2280ea4a19770adebbc4eeac8bb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 016/132] fix: continue in the anonymous structure of a union
 after initializing one of its members by a designator

---
 src/parse.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index a158ed8..a609d78 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2622,7 +2622,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
             struct designator_node *node = designator_stack.first;
             struct ast_type *type = node->lhs_type;
             
-            if(type->kind == AST_struct){
+            if(type->kind == AST_struct || type->kind == AST_union){
                 struct ast_compound_type *compound = (struct ast_compound_type *)type;
                 struct compound_member *member = &compound->members[node->member_at];
                 
@@ -2638,9 +2638,6 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                 
                 if(!at_end && (node->member_at < compound->amount_of_members)) break;
                 
-            }else if(type->kind == AST_union){
-                // pop the union! Only ever initialize one member of the union.
-                // The current object should be the next thing after the union.
             }else{
                 struct ast_array_type *array = (struct ast_array_type *)type;
                 
@@ -8237,8 +8234,7 @@ case TOKEN_##type_name:{                                                 \
                                             }
                                         }
                                         
-                                        smm next_member_increment = (nested_compound->base.kind == AST_union) ? nested_compound->amount_of_members - member_index : 1;
-                                        register_compound_member(context, compound, member->name, member->type, offset_in_type + member->offset_in_type, next_member_increment);
+                                        register_compound_member(context, compound, member->name, member->type, offset_in_type + member->offset_in_type, member->next_member_increment);
                                     }
                                 }
                                 
@@ -8285,6 +8281,26 @@ case TOKEN_##type_name:{                                                 \
                         
                         compound->base.size = (size + (alignment - 1)) & ~(alignment - 1); // @cleanup: overflow
                         compound->base.alignment = alignment;
+                        
+                        if(is_union){
+                            // :next_member_increment
+                            // 
+                            // Only ever initialize one member of the union. The next member is past the end of the union,
+                            // unless there are members left in the anonymous structure containing the member.
+                            for(smm start = 0, end; start < compound->amount_of_members; start = end){
+                                struct compound_member *outer = &compound->members[start];
+                                end = start + 1;
+                                if(outer->name == globals.invalid_identifier_token) end += ((struct ast_compound_type *)outer->type)->amount_of_members;
+                                
+                                for(smm member_index = start; member_index < end; member_index++){
+                                    struct compound_member *member = &compound->members[member_index];
+                                    if(member_index == start || member_index + member->next_member_increment >= end){
+                                        member->next_member_increment = compound->amount_of_members - member_index;
+                                    }
+                                }
+                            }
+                        }
+                        
                         if(name){
                             compound->compilation_unit = context->current_compilation_unit;
                             register_compound_type(context, &compound->base, compound->identifier);
-- 
2.43.0


From 46e137e4c9e9516746e4db08274d329f88bf2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 017/132] fix: a constant floating-point comparison always
 evaluated to 1

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index a609d78..e6ec9e5 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2928,7 +2928,7 @@ func void perform_float_operation(struct context *context, enum ast_kind binary_
         // "The result has type int".
         struct ir_integer_literal *lit = (struct ir_integer_literal *)lhs;
         lit->base.kind = IR_integer_literal;
-        lit->_u64 = 1;
+        lit->_u64 = compare_value;
         lit->type = &globals.typedef_s32;
         op_rhs->resolved_type = &globals.typedef_s32;
         op_rhs->defined_type = &globals.typedef_u8.kind;
-- 
2.43.0


From 58dcd70fb8113e82bcb1dd22a814d8d201c70a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 018/132] fix: signedness of shifts, '!', '?:' and of
 9223372036854775807 in '#if'

---
 src/preprocess.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 409e7bb..88bdb0b 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2998,7 +2998,7 @@ func s64 static_if_evaluate(struct context *context){
                 case NUMBER_KIND_int:
                 case NUMBER_KIND_long:
                 case NUMBER_KIND_long_long:{
-                    if(value < max_s64) break;
+                    if(value <= max_s64) break;
                     report_warning(context, WARNING_integer_literal_too_large_to_be_signed, test, "Integer literal exceeds the maximum value representable as a signed integer and is interpreted as unsigned.");
                     is_unsigned = 1;
                 }break;
@@ -3188,16 +3188,16 @@ func s64 static_if_evaluate(struct context *context){
         static_if_stack_pop(context);
         
         switch(current->operation){
-            case STATIC_IF_EVALUATE_logical_not: value = !value; break;
+            case STATIC_IF_EVALUATE_logical_not: is_unsigned = 0; value = !value; break;
             case STATIC_IF_EVALUATE_bitwise_not: value = ~value; break;
             case STATIC_IF_EVALUATE_unary_minus: value = -(s64)value; break; // @cleanup: warning?
             
             case STATIC_IF_EVALUATE_left_shift:{
-                is_unsigned |= current->is_unsigned;
+                is_unsigned = current->is_unsigned; // The type of a shift is the type of the left operand.
                 value = is_unsigned ? ((u64)current->value << (u64)value) : ((s64)current->value << (s64)value);
             }break;
             case STATIC_IF_EVALUATE_right_shift:{
-                is_unsigned |= current->is_unsigned;
+                is_unsigned = current->is_unsigned;
                 value = is_unsigned ? ((u64)current->value >> (u64)value) : ((s64)current->value >> (s64)value);
             }break;
             
@@ -3298,6 +3298,7 @@ func s64 static_if_evaluate(struct context *context){
                 
                 assert(if_true->operation == STATIC_IF_EVALUATE_ternary_if_true && condition->operation == STATIC_IF_EVALUATE_ternary_condition);
                 
+                is_unsigned |= if_true->is_unsigned;
                 value = condition->value ? if_true->value : value;
             }break;
             
-- 
2.43.0


From 32e6d49d6d766b1de4c99b1d7a05298a8a143261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 019/132] fix: a division by zero in an operand of '#if' that
 is not evaluated is not an error

---
 src/preprocess.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 88bdb0b..9a20cb9 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3212,6 +3212,7 @@ func s64 static_if_evaluate(struct context *context){
             
             case STATIC_IF_EVALUATE_div:{
                 is_unsigned |= current->is_unsigned;
+                if(context->static_if_evaluate_should_skip_undefined_identifier && value == 0) break; // Not evaluated, e.g. '0 && 1/0'.
                 if(value == 0){
                     report_error(context, get_current_token_for_error_report(context), "Divide by zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
@@ -3221,6 +3222,7 @@ func s64 static_if_evaluate(struct context *context){
             
             case STATIC_IF_EVALUATE_mod:{
                 is_unsigned |= current->is_unsigned;
+                if(context->static_if_evaluate_should_skip_undefined_identifier && value == 0) break;
                 if(value == 0){
                     report_error(context, get_current_token_for_error_report(context), "Mod with zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
@@ -3287,7 +3289,9 @@ func s64 static_if_evaluate(struct context *context){
                     return 0;
                 }
                 
+                context->static_if_evaluate_should_skip_undefined_identifier = current->should_skip_undefined_identifier;
                 static_if_stack_push(context, current->token, STATIC_IF_EVALUATE_ternary_condition, current->value, current->is_unsigned);
+                context->static_if_evaluate_should_skip_undefined_identifier |= (current->value != 0);
                 static_if_stack_push(context, binary_expression, STATIC_IF_EVALUATE_ternary_if_true, value, is_unsigned);
                 goto retry;
             }break;
@@ -3298,6 +3302,9 @@ func s64 static_if_evaluate(struct context *context){
                 
                 assert(if_true->operation == STATIC_IF_EVALUATE_ternary_if_true && condition->operation == STATIC_IF_EVALUATE_ternary_condition);
                 
+                // Restore the old value of 'should_skip_undefined_identifier'.
+                context->static_if_evaluate_should_skip_undefined_identifier = condition->should_skip_undefined_identifier;
+                
                 is_unsigned |= if_true->is_unsigned;
                 value = condition->value ? if_true->value : value;
             }break;
@@ -3347,7 +3354,14 @@ func s64 static_if_evaluate(struct context *context){
             goto retry;
         }
         
-        case TOKEN_question_mark: static_if_stack_push(context, test, STATIC_IF_EVALUATE_ternary_condition, value, is_unsigned); goto retry;
+        case TOKEN_question_mark:{
+            static_if_stack_push(context, test, STATIC_IF_EVALUATE_ternary_condition, value, is_unsigned);
+            
+            // Only one of the operands is evaluated.
+            context->static_if_evaluate_should_skip_undefined_identifier |= (value == 0);
+            
+            goto retry;
+        }
         
         default: break;
     }
-- 
2.43.0


From 62442e54b7d1fca73a075cd284c5fd1650a2a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 020/132] fix: a cast of a negative floating-point constant to
 _Bool is not illegal

---
 src/parse.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index e6ec9e5..9531d82 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -323,13 +323,13 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
                     invalid_default_case();
                 }
             }else{
-                if(f_value < 0.0){
-                    report_error(context, cast_what->token, "Cast from negative a floating point number to an unsigned type is illegal.");
-                }
-                
                 if(cast_to == &globals.typedef_Bool){
                     i->_u8 = (_Bool)f_value;
                 }else{
+                    if(f_value < 0.0){
+                        report_error(context, cast_what->token, "Cast from negative a floating point number to an unsigned type is illegal.");
+                    }
+                    
                     switch(cast_to->size){
                         case 1: i->_u8  = (u8) f_value; break;
                         case 2: i->_u16 = (u16)f_value; break;
-- 
2.43.0


From 5d5ef9433aa1e156c18d659ce49d1953ffc38cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 021/132] fix: fold '!', '&&' and '||' of floating-point
 constants

---
 src/parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 9531d82..c7e2693 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -5792,6 +5792,8 @@ case NUMBER_KIND_##type:{ \
             
             case AST_unary_logical_not:{
                 
+                if(operand.ir->kind == IR_float_literal) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
+                
                 if(operand.ir->kind == IR_integer_literal){
                     struct ir_integer_literal *lit = cast(struct ir_integer_literal *)operand.ir;
                     lit->_u64 = !integer_literal_as_u64(&operand);
@@ -6571,6 +6573,7 @@ case NUMBER_KIND_##type:{ \
                     report_error(context, operand.token, "Right of '&&' has to be convertible to _Bool.");
                     return operand;
                 }
+                if(operand.ir->kind == IR_float_literal) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
                 
                 // 
                 // Code for &&
@@ -6685,6 +6688,7 @@ case NUMBER_KIND_##type:{ \
                     report_error(context, operand.token, "Right of '||' has to be convertible to _Bool.");
                     return operand;
                 }
+                if(operand.ir->kind == IR_float_literal) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
                 
                 struct expr *op_lhs_expr = &stack_entry->operand;
                 struct ir *op_lhs = stack_entry->operand.ir;
@@ -7317,6 +7321,7 @@ case NUMBER_KIND_##type:{ \
                 report_error(context, next_token(context), "Left of '&&' has to be convertible to _Bool.");
                 return operand;
             }
+            if(operand.ir->kind == IR_float_literal) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
             
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_false);
             conditional_jump->label_number = context->jump_label_index++;
@@ -7335,6 +7340,7 @@ case NUMBER_KIND_##type:{ \
                 report_error(context, next_token(context), "Left of '||' has to be convertible to _Bool.");
                 return operand;
             }
+            if(operand.ir->kind == IR_float_literal) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
             
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_true);
             conditional_jump->label_number = context->jump_label_index++;
-- 
2.43.0


From c3e928d1ce555bc2203c2aac2d6051514b58b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 022/132] fix: _Generic evaluated the last association instead
 of the selected one

---
 src/parse.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index c7e2693..2d127cf 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4972,8 +4972,9 @@ case NUMBER_KIND_##type:{ \
             
             context->ir_arena.current = ir_arena_start;
             
-            struct expr default_expression = zero_struct;
-            struct expr choosen_expression = zero_struct;
+            // Parse every association, but drop all of the ir. The selected one is parsed again afterwards.
+            smm default_marker = -1;
+            smm choosen_marker = -1;
             
             while(in_current_token_array(context) && !peek_token_eat(context, TOKEN_closed_paren)){
                 
@@ -4983,7 +4984,8 @@ case NUMBER_KIND_##type:{ \
                 if(peek_token_eat(context, TOKEN_default)){
                     expect_token(context, TOKEN_colon, "Expected ':' after 'default' while parsing a _Generic association list.");
                     
-                    default_expression = parse_expression(context, /*skip_comma_expression*/1);
+                    default_marker = context->token_at;
+                    parse_expression(context, /*skip_comma_expression*/1);
                 }else{
                     struct type_info_return type_name = maybe_parse_type_for_cast_or_sizeof(context);
                     if(!type_name.type){
@@ -4994,26 +4996,27 @@ case NUMBER_KIND_##type:{ \
                     
                     expect_token(context, TOKEN_colon, "Expected ':' after the type-name while parsing a _Generic association list.");
                     
-                    struct expr expression = parse_expression(context, /*skip_comma_expression*/1);
-                    
-                    if(types_are_equal(type_name.type, choice)){
-                        choosen_expression = expression;
-                    }else{
-                        memset(ir_arena_start, 0, context->ir_arena.current - ir_arena_start);
-                        context->ir_arena.current = ir_arena_start;
-                    }
+                    if(types_are_equal(type_name.type, choice)) choosen_marker = context->token_at;
+                    parse_expression(context, /*skip_comma_expression*/1);
                 }
+                
+                if(context->should_exit_statement) return invalid_ast(context);
+                
+                memset(ir_arena_start, 0, context->ir_arena.current - ir_arena_start);
+                context->ir_arena.current = ir_arena_start;
             }
             
-            if(choosen_expression.ir){
-                operand = choosen_expression;
-            }else if(default_expression.ir){
-                operand = default_expression;
-            }else{
+            smm selected_marker = (choosen_marker != -1) ? choosen_marker : default_marker;
+            if(selected_marker == -1){
                 // :Error
                 report_error(context, generic, "_Generic choice did not match any of the associations.");
                 return invalid_ast(context);
             }
+            
+            smm end_marker = context->token_at;
+            context->token_at = selected_marker;
+            operand = parse_expression(context, /*skip_comma_expression*/1);
+            context->token_at = end_marker;
         }break;
         
         default:{
-- 
2.43.0


From 8006872ce3a727eafc4ad95e57b711c11e76f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 023/132] fix: low surrogates of UTF-16 literals

---
 src/preprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 9a20cb9..1e62121 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -794,7 +794,7 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                             
                             // first the high bits, then the low bits
                             handle_escaping_out(0xD800 | ((codepoint >> 10) & 0b1111111111));
-                            handle_escaping_out(0xDD00 | ((codepoint >>  0) & 0b1111111111));
+                            handle_escaping_out(0xDC00 | ((codepoint >>  0) & 0b1111111111));
                         }
                         continue;
                     }
@@ -830,7 +830,7 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                             
                             // first the high bits, then the low bits
                             handle_escaping_out(0xD800 | ((codepoint >> 10) & 0b1111111111));
-                            handle_escaping_out(0xDD00 | ((codepoint >>  0) & 0b1111111111));
+                            handle_escaping_out(0xDC00 | ((codepoint >>  0) & 0b1111111111));
                         }
                     }else{
                         // Allow the user to specify invalid utf-16 through escapes!
-- 
2.43.0


From e8e9ddfb012203760609943474d418af9bc4adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 024/132] fix: value of multi-character and wide character
 constants in '#if', three-character constants read an uninitialised byte

---
 src/parse.c      | 6 ++++--
 src/preprocess.c | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 2d127cf..8138ac0 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4425,13 +4425,15 @@ func struct expr parse_expression(struct context *context, b32 should_skip_comma
                         defined_type = &globals.typedef_s16.kind;
                         value = *(u16 *)escaped.string.data;
                     }else if(escaped.string.size <= 4){
+                        s32 s32_value = 0;
+                        memcpy(&s32_value, escaped.string.data, escaped.string.size);
                         type = &globals.typedef_s32;
-                        value = *(s32 *)escaped.string.data;
+                        value = s32_value;
                     }else if(escaped.string.size <= 8){
                         // @note: this is an extension as we are supposed to give it type int.
                         report_warning(context, WARNING_extension_used, lit_token, "Character constant exceeds the size of 'int' using '__int64'.");
                         type = &globals.typedef_s64;
-                        value = *(s64 *)escaped.string.data;
+                        memcpy(&value, escaped.string.data, escaped.string.size);
                     }else{
                         report_error(context, lit_token, "Character constant exceeds the size of '__int64'.");
                         return invalid_ast(context);
diff --git a/src/preprocess.c b/src/preprocess.c
index 1e62121..58e2c7c 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1027,14 +1027,14 @@ func struct parsed_integer parse_character_literal(struct context *context, stru
     }
     
     u64 value = 0;
-    for(smm i = 0; i < escaped.string.size; i++){
+    for(smm i = escaped.string.size - 1; i >= 0; i--){
         value <<= 8;
         value += escaped.string.data[i];
     }
     
     ret.value = value;
     switch(escaped.string_kind){
-        case STRING_KIND_utf8:  ret.number_kind = NUMBER_KIND_s8;  break;
+        case STRING_KIND_utf8:  ret.number_kind = (escaped.string.size == 1) ? NUMBER_KIND_s8 : NUMBER_KIND_s32; break;
         case STRING_KIND_utf16: ret.number_kind = NUMBER_KIND_u16; break;
         case STRING_KIND_utf32: ret.number_kind = NUMBER_KIND_u32; break;
         default: ret.number_kind = NUMBER_KIND_invalid; break;
@@ -2962,6 +2962,7 @@ func s64 static_if_evaluate(struct context *context){
             struct parsed_integer parsed_integer = parse_character_literal(context, test);
             switch(parsed_integer.number_kind){
                 case NUMBER_KIND_s8:  value = (s8)parsed_integer.value; break;
+                case NUMBER_KIND_s32: value = (s32)parsed_integer.value; break;
                 case NUMBER_KIND_u16: value = (u16)parsed_integer.value; is_unsigned = 1; break;
                 case NUMBER_KIND_u32: value = (u32)parsed_integer.value; is_unsigned = 1; break;
                 case NUMBER_KIND_invalid:{
-- 
2.43.0


From 7b3d3ddcacd92360886d7ff9bdfc5a1560a17fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 025/132] fix: a '//' comment continues behind an escaped
 newline

---
 src/preprocess.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 58e2c7c..bd19535 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1528,7 +1528,14 @@ at     += size;
                 }else if(at[1] == '/'){
                     at += 2;
                     
-                    while(*at && *at != '\n') at++;
+                    while(*at && *at != '\n'){
+                        // An escaped newline continues the comment on the next line.
+                        if(at[0] == '\\' && (at[1] == '\n' || (at[1] == '\r' && at[2] == '\n'))){
+                            at += (at[1] == '\r') ? 2 : 1;
+                            line += 1;
+                        }
+                        at++;
+                    }
                     
                     next_token__internal(TOKEN_comment, at - start);
                 }else if(at[1] == '='){
-- 
2.43.0


From 91ada6f2692644940c39534987f08bc2923036b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 026/132] fix: digit separators in floating constants and
 directly behind a leading zero; float constants were rounded twice

---
 src/parse.c      | 13 +++++++++++--
 src/preprocess.c |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 8138ac0..f6841f3 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4159,6 +4159,7 @@ func void punt_compound_assignment(struct context *context, struct expr *lhs, st
 
 // @cleanup: Eventually, we should implement this ourselves.
 __declspec(dllimport) double strtod(const char *str, char **endptr);
+__declspec(dllimport) float  strtof(const char *str, char **endptr);
 
 func struct expr parse_expression(struct context *context, b32 should_skip_comma_expression){
     
@@ -4806,12 +4807,20 @@ case NUMBER_KIND_##type:{ \
             
             struct string value = create_string(string.data, string.size - suffix.size);
             char *cvalue = push_cstring_from_string(&context->scratch, value);
+            
+            // Remove the digit separators.
+            smm value_size = 0;
+            for(smm i = 0; i < value.size; i++){
+                if(cvalue[i] != '\'') cvalue[value_size++] = cvalue[i];
+            }
+            cvalue[value_size] = 0;
+            
             char *endptr;
-            double val = strtod(cvalue, &endptr);
+            double val = is_32_bit ? strtof(cvalue, &endptr) : strtod(cvalue, &endptr);
             
             // @cleanup: handle strtod errors
             
-            if(endptr != cvalue + value.size){
+            if(endptr != cvalue + value_size){
                 report_error(context, float_token, "Invalid suffix '%.*s' on float literal.", suffix.size, suffix.data);
             }
             
diff --git a/src/preprocess.c b/src/preprocess.c
index bd19535..199a306 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1710,7 +1710,7 @@ at     += size;
                     next_token__internal(TOKEN_octal_literal, at - start);
                 }else{
                     
-                    if('0' <= at[1] && at[1] <= '9'){
+                    if(('0' <= at[1] && at[1] <= '9') || at[1] == '\''){
                         at++;
                         
                         enum token_type token_type = TOKEN_octal_literal;
-- 
2.43.0


From 7ec59945f2e975c32a2a4ec8dfab2c42a9da287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 027/132] fix: scale integer operands added to constant
 pointers by the pointee size

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index f6841f3..7b2672d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1764,9 +1764,9 @@ func void handle_pointer_arithmetic(struct context *context, enum ir_kind ir_kin
         
         struct ir_pointer_literal *pointer_lit = (struct ir_pointer_literal *)pointer->ir;
         if(ir_kind == IR_add_u64){
-            pointer_lit->pointer += integer_literal_as_s64(integer);
+            pointer_lit->pointer += integer_literal_as_s64(integer) * deref_type->size;
         }else{
-            pointer_lit->pointer -= integer_literal_as_s64(integer);
+            pointer_lit->pointer -= integer_literal_as_s64(integer) * deref_type->size;
         }
         
         if(integer->ir < pointer->ir){
-- 
2.43.0


From 984fe1b756c5107dbf46e96312d7a58d791f370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 028/132] fix: a comma-separated declarator does not inherit
 extern or static from its predecessor

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 7b2672d..e3d9930 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8633,7 +8633,12 @@ func struct declaration_list parse_declaration_list(struct context *context, str
         goto end; // @cleanup: the 'does not declare anything' check should be here.
     }
     
+    u64 declared_specifier_flags = specifiers.specifier_flags;
+    
     do{
+        // The adjustments below only apply to one declarator, not to the ones following it.
+        specifiers.specifier_flags = declared_specifier_flags;
+        
         struct declarator_return declarator = parse_declarator(context, ret.type_specifier, ret.defined_type_specifier, DECLARATOR_identifier);
         if(should_set_sleeping_ident) context->sleeping_ident = declarator.ident;
         
-- 
2.43.0


From 09821933570fea071c6472a8c8fb50015dd80dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 029/132] fix: accept an extern redeclaration of a static
 variable

---
 src/parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index e3d9930..43b1b48 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8671,6 +8671,10 @@ func struct declaration_list parse_declaration_list(struct context *context, str
             // We overwrite the usual is static.                                         -20.11.2020
             if(declarator.ident != globals.invalid_identifier_token){
                 if(compilation_unit_is_static_table_lookup_whether_this_identifier_is_static(context->current_compilation_unit, declarator.ident->atom) == IDENTIFIER_is_static){
+                    if(!(specifiers.specifier_flags & SPECIFIER_static) && declarator.type->kind != AST_function_type){
+                        // An 'extern' declaration of a 'static' variable refers to the 'static' variable.
+                        specifiers.specifier_flags &= ~SPECIFIER_extern;
+                    }
                     specifiers.specifier_flags |= SPECIFIER_static;
                 }
             }
-- 
2.43.0


From 2993adebd724fdad167b90be3be21631f707acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 030/132] fix: a local tag declaration hides the tag of the
 enclosing scope

---
 src/ast.c   |  4 ++++
 src/main.c  | 11 ++++++++++-
 src/parse.c | 51 +++++++++++++++++++++++++++++++++++++++++++--------
 3 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 0524d75..28b28e5 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -594,6 +594,7 @@ struct ast_unresolved_type{
     enum ast_kind kind; // AST_union, AST_struct or AST_enum
     struct token *sleeping_on;
     struct ast_scope *containing_scope;
+    struct ast_unresolved_type *next_in_scope; // Only used for types in 'containing_scope->incomplete_types'.
 };
 
 static struct string type_prefix_for_unresolved_type(struct ast_unresolved_type *unresolved){
@@ -668,6 +669,9 @@ struct ast_scope{
     u32 amount_of_compound_types;
     u32 current_max_amount_of_compound_types;
     
+    // Tags which were declared in this scope, but (so far) not defined in it.
+    struct ast_unresolved_type *incomplete_types;
+    
     // These are offsets into the ir until code generation, then they are offsets into the function.
     u32 start_offset;
     u32 end_offset;
diff --git a/src/main.c b/src/main.c
index a597005..72d0630 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1555,6 +1555,10 @@ func struct ast_type *lookup_compound_type(struct context *context, struct atom
                 return &type->base;
             }
         }
+        
+        for(struct ast_unresolved_type *incomplete = it->incomplete_types; incomplete; incomplete = incomplete->next_in_scope){
+            if(atoms_match(ident, incomplete->sleeping_on->atom)) return &incomplete->base;
+        }
     }
     
     return (struct ast_type *)ast_table_get(&globals.compound_types, ident);
@@ -2063,11 +2067,16 @@ func void register_compound_type(struct context *context, struct ast_type *type,
     
     if(context->current_scope){
         struct ast_type *redecl = lookup_compound_type(context, ident->atom);
+        
+        // If the tag was already declared in this scope, this is always a new type.
+        b32 is_incomplete = redecl && (redecl->kind == AST_unresolved_type);
+        if(is_incomplete) redecl = lookup_unresolved_type(redecl);
+        
         if(redecl){
             // 
             // If its the same type, do not register this one. @cleanup: should we return the other type?
             // 
-            if(types_are_equal(redecl, type)) return;
+            if(!is_incomplete && types_are_equal(redecl, type)) return;
             
             // 
             // Warn on redeclaration at local scope, but still register this.
diff --git a/src/parse.c b/src/parse.c
index 43b1b48..d506596 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1235,6 +1235,25 @@ func struct ast_type *push_unresolved_type(struct context *context, struct token
     return &unresolved->base;
 }
 
+// At local scope, 'struct name;' and 'struct name {' declare a new type, even if an enclosing scope contains a 'struct name'.
+// From here on, the name refers to the type which is (maybe) defined later in this scope.
+func void maybe_declare_incomplete_type_in_scope(struct context *context, struct token *name, enum ast_kind kind){
+    struct ast_scope *scope = context->current_scope;
+    if(!scope || context->should_exit_statement) return;
+    
+    for(u32 i = 0; i < scope->amount_of_compound_types; i++){
+        if(atoms_match(name->atom, scope->compound_types[i]->identifier->atom)) return;
+    }
+    
+    for(struct ast_unresolved_type *it = scope->incomplete_types; it; it = it->next_in_scope){
+        if(atoms_match(name->atom, it->sleeping_on->atom)) return;
+    }
+    
+    struct ast_unresolved_type *incomplete = (struct ast_unresolved_type *)push_unresolved_type(context, name, kind);
+    incomplete->next_in_scope = scope->incomplete_types;
+    scope->incomplete_types = incomplete;
+}
+
 //_____________________________________________________________________________________________________________________
 // expressions 
 
@@ -7940,13 +7959,16 @@ case TOKEN_##type_name:{                                                 \
                     }else{
                         struct ast_type *lookup = lookup_compound_type(context, name->atom);
                         
+                        enum ast_kind lookup_kind = AST_none;
+                        if(lookup) lookup_kind = (lookup->kind == AST_unresolved_type) ? ((struct ast_unresolved_type *)lookup)->kind : lookup->kind;
+                        
                         if(!lookup){
                             lookup = push_unresolved_type(context, name, ast_kind);
-                        }else if(lookup->kind != ast_kind){
+                        }else if(lookup_kind != ast_kind){
                             char *error = null;
-                            if(lookup->kind == AST_union)  error = "a union";
-                            if(lookup->kind == AST_struct) error = "a struct";
-                            if(lookup->kind == AST_enum)   error = "an enum";
+                            if(lookup_kind == AST_union)  error = "a union";
+                            if(lookup_kind == AST_struct) error = "a struct";
+                            if(lookup_kind == AST_enum)   error = "an enum";
                             assert(error);
                             
                             report_error(context, name, "Got '%s %.*s', but '%.*s' is %s.", union_or_struct, name->size, name->data, name->size, name->data, error);
@@ -7965,6 +7987,8 @@ case TOKEN_##type_name:{                                                 \
                         compound = parser_compound_type_push(context, struct);
                     }
                     
+                    if(name) maybe_declare_incomplete_type_in_scope(context, name, is_union ? AST_union : AST_struct);
+                    
                     if(is_intrin_type) compound->base.flags |= TYPE_FLAG_is_intrin_type;
                     if(has_declspec_alignment) compound->base.flags |= TYPE_FLAG_is_user_aligned;
                     if(name){
@@ -8427,13 +8451,16 @@ case TOKEN_##type_name:{                                                 \
                     }else{
                         struct ast_type *lookup = lookup_compound_type(context, name->atom);
                         
+                        enum ast_kind lookup_kind = AST_none;
+                        if(lookup) lookup_kind = (lookup->kind == AST_unresolved_type) ? ((struct ast_unresolved_type *)lookup)->kind : lookup->kind;
+                        
                         if(!lookup){
                             lookup = push_unresolved_type(context, name, AST_enum);
-                        }else if(lookup->kind != AST_enum){
+                        }else if(lookup_kind != AST_enum){
                             char *error = null;
-                            if(lookup->kind == AST_union)  error = "a union";
-                            if(lookup->kind == AST_struct) error = "a struct";
-                            if(lookup->kind == AST_enum)   error = "an enum";
+                            if(lookup_kind == AST_union)  error = "a union";
+                            if(lookup_kind == AST_struct) error = "a struct";
+                            if(lookup_kind == AST_enum)   error = "an enum";
                             assert(error);
                             
                             report_error(context, name, "Got 'enum %.*s' but '%.*s' is %s.", name->size, name->data, name->size, name->data, error);
@@ -8609,6 +8636,14 @@ func struct declaration_list parse_declaration_list(struct context *context, str
     // @cleanup: explain this again
     b32 should_set_sleeping_ident = !context->sleeping_ident;
     
+    if(context->current_scope && (peek_token(context, TOKEN_struct) || peek_token(context, TOKEN_union)) && context->token_at + 2 < context->tokens.size){
+        // Handle the local predeclaration 'struct name;'.
+        struct token *name = context->tokens.data + context->token_at + 1;
+        if(name[0].type == TOKEN_identifier && name[1].type == TOKEN_semicolon){
+            maybe_declare_incomplete_type_in_scope(context, name, peek_token(context, TOKEN_union) ? AST_union : AST_struct);
+        }
+    }
+    
     struct declaration_specifiers specifiers = parse_declaration_specifiers(context, type_specifier, defined_type_specifier);
     if(context->should_exit_statement) goto end;
     
-- 
2.43.0


From 45f2c76fc5051149a8db36d869051fcb4eadcb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 031/132] fix: subscripts of constant addresses had the wrong
 type

---
 src/parse.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index d506596..349d1ad 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1847,6 +1847,25 @@ func void push_nodes_for_subscript(struct context *context, struct expr *lhs, st
         struct ast_pointer_type *pointer = (struct ast_pointer_type *)lhs_type;
         dereferenced_resolved_type = pointer->pointer_to;
         dereferenced_defined_type  = pointer->pointer_to_defined_type;
+        
+        if(lhs->ir->kind == IR_pointer_literal && index->ir->kind == IR_integer_literal && lhs->ir < index->ir){
+            
+            // Transform
+            //    ((int *)0)[3]
+            // Into
+            //    *((int *) 12)
+            
+            struct ir_pointer_literal *pointer_literal = (struct ir_pointer_literal *)lhs->ir;
+            pointer_literal->base.kind = IR_pointer_literal_deref;
+            pointer_literal->pointer += dereferenced_resolved_type->size * integer_literal_as_u64(index); // @cleanup: overflow?
+            pointer_literal->type = dereferenced_resolved_type;
+            
+            lhs->resolved_type = dereferenced_resolved_type;
+            lhs->defined_type  = dereferenced_defined_type;
+            
+            pop_from_ir_arena(context, (struct ir_integer_literal *)index->ir);
+            return;
+        }
     }else if(lhs_type->kind == AST_array_type){
         subscript_kind = IR_array_subscript;
         
@@ -1862,11 +1881,10 @@ func void push_nodes_for_subscript(struct context *context, struct expr *lhs, st
             struct ir_pointer_literal *pointer_literal_deref = (struct ir_pointer_literal *)lhs->ir;
             pointer_literal_deref->pointer += array->element_type->size * integer_literal_as_u64(index); // @cleanup: overflow?
             
-            struct ast_type *pointer_type = parser_push_pointer_type(context, array->element_type, array->element_type_defined_type);
-            pointer_literal_deref->type = pointer_type;
+            pointer_literal_deref->type = array->element_type;
             
-            lhs->resolved_type = pointer_type;
-            lhs->defined_type = null;
+            lhs->resolved_type = array->element_type;
+            lhs->defined_type  = array->element_type_defined_type;
             
             pop_from_ir_arena(context, (struct ir_integer_literal *)index->ir);
             return;
-- 
2.43.0


From 1b9c354cd3d41c8f31b80008095dc2facc377ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 032/132] fix: resolve the pointee of pointer differences and
 of dereferenced constant addresses

---
 src/parse.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 349d1ad..dadcfa4 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -5972,6 +5972,14 @@ case NUMBER_KIND_##type:{ \
                     return operand;
                 }
                 
+                struct ast_pointer_type *pointer = (struct ast_pointer_type *)operand.resolved_type;
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &pointer->pointer_to)) return operand;
+                
+                if(pointer->pointer_to == &globals.typedef_void){
+                    report_error(context, stack_entry->token, "Dereferencing a void-pointer.");
+                    return operand;
+                }
+                
                 if(operand.ir->kind == IR_pointer_literal){
                     operand.ir->kind = IR_pointer_literal_deref;
                     struct ast_pointer_type *pointer_type = (struct ast_pointer_type *)operand.resolved_type;
@@ -5981,15 +5989,6 @@ case NUMBER_KIND_##type:{ \
                     struct ir_pointer_literal *lit = (struct ir_pointer_literal *)operand.ir;
                     lit->type = pointer_type->pointer_to;
                 }else{
-                    
-                    struct ast_pointer_type *pointer = (struct ast_pointer_type *)operand.resolved_type;
-                    if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &pointer->pointer_to)) return operand;
-                    
-                    if(pointer->pointer_to == &globals.typedef_void){
-                        report_error(context, stack_entry->token, "Dereferencing a void-pointer.");
-                        return operand;
-                    }
-                    
                     struct ir_deref *deref = push_uninitialized_struct(&context->ir_arena, struct ir_deref);
                     deref->base.kind = IR_deref;
                     deref->type = pointer->pointer_to;
@@ -6169,6 +6168,8 @@ case NUMBER_KIND_##type:{ \
                             return operand;
                         }
                         
+                        if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &((struct ast_pointer_type *)op_lhs->resolved_type)->pointer_to)) return operand;
+                        
                         // @cleanup: Constant propagate!
                         
                         // Subtract the two pointers.
-- 
2.43.0


From 758d3791981bb79755a9274083a7306b96c82312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 033/132] fix: resolve the type of an extern object in sizeof
 and _Alignof

---
 src/parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index dadcfa4..1c0a637 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -5743,6 +5743,9 @@ case NUMBER_KIND_##type:{ \
             
             case AST_sizeof:{
                 
+                // An 'extern struct unresolved object;' can have an unresolved type.
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &operand.resolved_type)) return operand;
+                
                 if(operand.resolved_type->kind == AST_function_type){
                     report_error(context, stack_entry->token, "Expression of function type has undefined size.");
                     return operand;
@@ -5796,6 +5799,9 @@ case NUMBER_KIND_##type:{ \
             }break;
             case AST_alignof:{
                 
+                // An 'extern struct unresolved object;' can have an unresolved type.
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &operand.resolved_type)) return operand;
+                
                 if(operand.resolved_type->kind == AST_function_type){
                     report_error(context, stack_entry->token, "Expression of function type has undefined alignment.");
                     return operand;
-- 
2.43.0


From 92f8dbff946799a435be835bda7b43103f9affc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 034/132] fix: a _Static_assert at global scope that waits for
 a later declaration was dropped

---
 src/main.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 72d0630..cca9553 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3238,14 +3238,16 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
         return;
     }
     
+    struct token *static_assert_token = null;
+    struct declaration_list declaration_list = {0};
+    
     if(peek_token(context, TOKEN_static_assert)){
-        struct token *static_assert_token = next_token(context);
-        parse_static_assert(context, static_assert_token); // @cleanup: static_assert and sleeping.
-        expect_token(context, TOKEN_semicolon, "Expected a ';' after _Static_assert.");
-        return;
+        static_assert_token = next_token(context);
+        parse_static_assert(context, static_assert_token);
+    }else{
+        declaration_list = parse_declaration_list(context, null, null);
     }
     
-    struct declaration_list declaration_list = parse_declaration_list(context, null, null);
     if(context->error) return;
     if(context->should_sleep){
         struct token *sleep_on = context->sleep_on;
@@ -3266,6 +3268,11 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
         return;
     }
     
+    if(static_assert_token){
+        expect_token(context, TOKEN_semicolon, "Expected a ';' after _Static_assert.");
+        return;
+    }
+    
     // might not be the full type e.g. int (*a)
     struct ast_type *lhs_type = declaration_list.type_specifier;
     
-- 
2.43.0


From 098054b5c90e1b1fcfe7c720cdc0b8365c9a16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 035/132] fix: the '#' operator escaped the single quotes of
 character literals

---
 src/preprocess.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 199a306..44c6fec 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2161,9 +2161,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             
                             smm size = 0;
                             for(smm i = 0; i < string.size; i++){
-                                if(string.data[i] == '\''){
-                                    size += 2;
-                                }else if(string.data[i] == '"'){
+                                if(string.data[i] == '"'){
                                     size += 2;
                                 }else if(string.data[i] == '\\'){
                                     size += 2;
@@ -2176,10 +2174,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             
                             smm at = 0;
                             for(smm i = 0; i < string.size; i++){
-                                if(string.data[i] == '\''){
-                                    data[at++] = '\\';
-                                    data[at++] = '\'';
-                                }else if(string.data[i] == '"'){
+                                if(string.data[i] == '"'){
                                     data[at++] = '\\';
                                     data[at++] = '"';
                                 }else if(string.data[i] == '\\'){
-- 
2.43.0


From 5291237e632c73dbd5f257a4b8b18d4c9c1d21f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 036/132] fix: '##' of two empty arguments yields a placemarker

---
 src/preprocess.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 44c6fec..1763a12 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2326,8 +2326,13 @@ func struct token *expand_define(struct context *context, struct token *token_to
     
     struct token_stack_node *define_token_stack_at = context->token_stack.nodes + (define_token_stack_start + define_token_stack_count - 1);
     
+    b32 previous_is_placemarker = false; // Whether the previous replacement was a '##' of two empty arguments.
+    
     for(struct define_replacement_node *replacement = define->replacement_list.first; replacement; replacement = replacement->next){
         
+        b32 prefix_is_placemarker = previous_is_placemarker;
+        previous_is_placemarker = false;
+        
         // @note: we copy all (relevant) tokens outside the tokenizer, thus all allocations can be on 'scratch'
         switch(replacement->kind){
             case DEFINE_REPLACEMENT_tokens:{
@@ -2386,6 +2391,8 @@ func struct token *expand_define(struct context *context, struct token *token_to
                         
                         prefix_token = arg_tokens.data + arg_tokens.amount - 1;
                     }
+                }else if(prefix_is_placemarker){
+                    prefix_is_empty = true;
                 }else{
                     // :cannot_store_prefix
                     // we cannot predict the prefix token while parsing defines, as there can be ## chains and
@@ -2445,6 +2452,8 @@ func struct token *expand_define(struct context *context, struct token *token_to
                 
                 struct token_array tokens = tokenize_raw(context, concat, macro_expansion_site->file_index, /* is_stupid_hash_hash_hack */ true, /* lines */null);
                 
+                previous_is_placemarker = prefix_is_empty && postfix_is_empty;
+                
                 if(tokens.amount){
                     // @note: amount can be 0 for 
                     //            #define C(a,b) a##b
-- 
2.43.0


From e76676c1287aade2a3f1f7a9affdc3a74287db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 037/132] fix: allow '#parameter' as the right operand of '##'

---
 src/preprocess.c | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 1763a12..fa2d6c3 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -80,6 +80,7 @@ struct define_replacement_node{
             smm prefix_argument;         // can be '-1' if invalid
             smm postfix_argument;        // can be '-1' if invalid
             struct token *postfix_token; // used if 'postfix_argument == -1'
+            smm postfix_stringify_index; // '-1' if invalid, otherwise the postfix is the stringified argument ('a ## #b').
         }; // DEFINE_REPLACEMENT_hashhash
     };
 };
@@ -2437,6 +2438,14 @@ func struct token *expand_define(struct context *context, struct token *token_to
                     }
                 }else{
                     postfix_token = replacement->postfix_token;
+                    
+                    if(replacement->postfix_stringify_index != -1){
+                        struct token *string_token = push_struct(&context->scratch, struct token);
+                        string_token->type = TOKEN_string_literal;
+                        string_token->data = stringified_arguments[replacement->postfix_stringify_index].data;
+                        string_token->size = stringified_arguments[replacement->postfix_stringify_index].size;
+                        postfix_token = string_token;
+                    }
                 }
                 
                 
@@ -4053,6 +4062,23 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                     // @note: skip the 'postfix_token' in any case
                                     struct token *postfix_token = next_token_raw(context);
                                     replacement->postfix_token = postfix_token;
+                                    replacement->postfix_stringify_index = -1;
+                                    
+                                    if(postfix_token->type == TOKEN_hash){
+                                        // The operand is the stringified argument: 'a ## #b'.
+                                        eat_whitespace_and_comments(context);
+                                        
+                                        struct define_argument *other_arg = null;
+                                        if(peek_token_raw(context, TOKEN_identifier)) other_arg = lookup_define_argument(arguments, next_token_raw(context));
+                                        
+                                        if(!other_arg){
+                                            report_error(context, postfix_token, "Expected a formal argument after '#' in macro replacement list for '%.*s'.", defined_identifier->size, defined_identifier->data);
+                                            goto end;
+                                        }
+                                        
+                                        if(other_arg->stringify_index == -1) other_arg->stringify_index = stringify_count++;
+                                        replacement->postfix_stringify_index = other_arg->stringify_index;
+                                    }
                                     
                                     if(postfix_token->type == TOKEN_identifier){
                                         struct define_argument *other_arg = lookup_define_argument(arguments, postfix_token);
@@ -4113,6 +4139,23 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             token_stack_node_count += 3; // Prefix, merged, postfix.
                             
                             replacement->postfix_token = next_token_raw(context);
+                            replacement->postfix_stringify_index = -1;
+                            
+                            if(is_function_like && replacement->postfix_token->type == TOKEN_hash){
+                                // The operand is the stringified argument: 'a ## #b'.
+                                eat_whitespace_and_comments(context);
+                                
+                                struct define_argument *arg = null;
+                                if(peek_token_raw(context, TOKEN_identifier)) arg = lookup_define_argument(arguments, next_token_raw(context));
+                                
+                                if(!arg){
+                                    report_error(context, replacement->postfix_token, "Expected a formal argument after '#' in macro replacement list for '%.*s'.", defined_identifier->size, defined_identifier->data);
+                                    goto end;
+                                }
+                                
+                                if(arg->stringify_index == -1) arg->stringify_index = stringify_count++;
+                                replacement->postfix_stringify_index = arg->stringify_index;
+                            }
                             
                             if(replacement->postfix_token->type == TOKEN_identifier){
                                 struct token *ident = replacement->postfix_token;
-- 
2.43.0


From 8a7358d589bd7ab7137bf5bc9f75c7aa696b1031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 038/132] fix: redefining a macro with another right operand of
 '##' was ignored

---
 src/preprocess.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index fa2d6c3..005e0e0 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -4302,7 +4302,10 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                 }break;
                                 case DEFINE_REPLACEMENT_hashhash:{
                                     if(decl_list->prefix_argument != redecl_list->prefix_argument ||
-                                            decl_list->postfix_argument != redecl_list->postfix_argument){
+                                            decl_list->postfix_argument != redecl_list->postfix_argument ||
+                                            decl_list->postfix_stringify_index != redecl_list->postfix_stringify_index){
+                                        defines_are_equivalent = false;
+                                    }else if(decl_list->postfix_argument == -1 && !atoms_match(decl_list->postfix_token->atom, redecl_list->postfix_token->atom)){
                                         defines_are_equivalent = false;
                                     }
                                 }break;
-- 
2.43.0


From 9c98cacc483a869f356c5753144c36b116e56f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 039/132] fix: '#__VA_ARGS__' without variable arguments read
 an uninitialised string

---
 src/preprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 005e0e0..d774774 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2123,6 +2123,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             if(define->is_varargs && !arg->next->next){
                                 // varargs with no arguments in __VA_ARGS__ is fine
                                 argument_token_arrays[arg->next->argument_index] = (struct token_array)zero_struct;
+                                if(arg->next->stringify_index != -1) stringified_arguments[arg->next->stringify_index] = string("\"\"");
                                 break;
                             }
                             
-- 
2.43.0


From afcc0e5d5232f68a4d4d871581d0a3140ed58c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 040/132] fix: a macro name in its own expansion stays
 unexpanded even if it is not followed by its arguments yet

---
 src/preprocess.c | 58 ++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index d774774..cca583e 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2249,6 +2249,33 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             struct define_node *define_in_argument = lookup_define(context, token->atom);
                             if(define_in_argument){
                                 
+                                if(define_in_argument->is_disabled){
+                                    dynarray_maybe_grow(struct token, &context->scratch, array, amount, capacity);
+                                    
+                                    // We have to prevent this identifier from being expanded again, after the define might be reenabled.
+                                    // For example:
+                                    // 
+                                    //     #define member a.member
+                                    //     #define def(m) m
+                                    //     def(member);
+                                    //     
+                                    // def(member) -> expand(a.member) -> a.member
+                                    // 
+                                    // This is because of the following passage from the c-spec:
+                                    // 
+                                    // "Furthermore, if any nested replacements encounter the name of the macro being replaced,
+                                    //  it is not replaced. These nonreplaced macro name preprocessing tokens are no longer
+                                    //  available for further replacement even if they are later (re)examined in contexts in which
+                                    //  that macro name preprocessing token would otherwise have been replaced.
+                                    // 
+                                    // We implement this by making these tokens not identifiers anymore.
+                                    // 
+                                    struct token *new_token = &array[amount++];
+                                    *new_token = *token;
+                                    new_token->type = TOKEN_identifier_dont_expand_because_it_comes_from_a_fully_expanded_macro;
+                                    continue;
+                                }
+                                
                                 int skip = 0;
                                 
                                 if(define_in_argument->is_function_like){
@@ -2259,35 +2286,8 @@ func struct token *expand_define(struct context *context, struct token *token_to
                                 }
                                 
                                 if(!skip){
-                                    if(define_in_argument->is_disabled){
-                                        dynarray_maybe_grow(struct token, &context->scratch, array, amount, capacity);
-                                        
-                                        // We have to prevent this identifier from being expanded again, after the define might be reenabled.
-                                        // For example:
-                                        // 
-                                        //     #define member a.member
-                                        //     #define def(m) m
-                                        //     def(member);
-                                        //     
-                                        // def(member) -> expand(a.member) -> a.member
-                                        // 
-                                        // This is because of the following passage from the c-spec:
-                                        // 
-                                        // "Furthermore, if any nested replacements encounter the name of the macro being replaced,
-                                        //  it is not replaced. These nonreplaced macro name preprocessing tokens are no longer
-                                        //  available for further replacement even if they are later (re)examined in contexts in which
-                                        //  that macro name preprocessing token would otherwise have been replaced.
-                                        // 
-                                        // We implement this by making these tokens not identifiers anymore.
-                                        // 
-                                        struct token *new_token = &array[amount++];
-                                        *new_token = *token;
-                                        new_token->type = TOKEN_identifier_dont_expand_because_it_comes_from_a_fully_expanded_macro;
-                                        continue;
-                                    }else{
-                                        token = expand_define(context, token, define_in_argument, macro_expansion_site);
-                                        if(!token) continue; 
-                                    }
+                                    token = expand_define(context, token, define_in_argument, macro_expansion_site);
+                                    if(!token) continue; 
                                 } 
                             }
                         }
-- 
2.43.0


From 45064d961e6a27f9cef00cade181c97f68be9819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 041/132] fix: keep white space after the name of a
 function-like macro that is not invoked inside of an argument

---
 src/preprocess.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index cca583e..364c064 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2279,9 +2279,20 @@ func struct token *expand_define(struct context *context, struct token *token_to
                                 int skip = 0;
                                 
                                 if(define_in_argument->is_function_like){
+                                    struct token *white_space = peek_token_eat_raw(context, TOKEN_whitespace);
+                                    if(!white_space) white_space = peek_token_eat_raw(context, TOKEN_comment);
+                                    if(!white_space) white_space = peek_token_eat_raw(context, TOKEN_newline);
+                                    
                                     eat_whitespace_comments_and_newlines(context); 
                                     if(!peek_token_raw(context, TOKEN_open_paren)){
                                         skip = 1;
+                                        
+                                        if(white_space){
+                                            // This is not an invocation, keep the white space in case the argument gets stringized.
+                                            dynarray_maybe_grow(struct token, &context->scratch, array, amount, capacity);
+                                            array[amount++] = *token;
+                                            token = white_space;
+                                        }
                                     }
                                 }
                                 
-- 
2.43.0


From 59f9710e93bd4d3f63436d3b318efc49be5b5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 042/132] fix: do not require an identifier after #ifdef in a
 disabled block

---
 src/preprocess.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 364c064..ad1d613 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3881,16 +3881,20 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                 case DIRECTIVE_ifdef:
                 case DIRECTIVE_ifndef:{
                     eat_whitespace_and_comments(context);
-                    if(!peek_token_raw(context, TOKEN_identifier)){
-                        report_error(context, directive, "Expected an identifier.");
-                        goto end;
-                    }
-                    struct token *defined_identifier = next_token_raw(context);
                     
                     b32 evaluates_to_true = false;
                     if(!static_if_stack.first || static_if_stack.first->is_true){
+                        if(!peek_token_raw(context, TOKEN_identifier)){
+                            report_error(context, directive, "Expected an identifier.");
+                            goto end;
+                        }
+                        struct token *defined_identifier = next_token_raw(context);
+                        
                         b32 is_defined = lookup_define(context, defined_identifier->atom) != null;
                         evaluates_to_true = (directive_kind == DIRECTIVE_ifdef) ? is_defined : !is_defined;
+                    }else{
+                        // Directives in disabled blocks are only processed to keep track of the nesting.
+                        while(!peek_token_raw(context, TOKEN_newline)) next_token_raw(context);
                     }
                     
                     struct static_if_stack_node *node = push_struct(scratch, struct static_if_stack_node);
-- 
2.43.0


From 7cc943547fb51bb1df298c1be673e86c695b7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 043/132] fix: #include_next dropped the first line of the
 included file

---
 src/preprocess.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index ad1d613..53fe228 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -4501,7 +4501,20 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             goto end;
                         }
                         
+                        // We have do handle the junk ourselves, as we will push new tokens.
+                        eat_whitespace_and_comments(context);
+                        if(!peek_token_raw(context, TOKEN_newline)){
+                            report_warning(context, WARNING_junk_after_directive, get_current_token_raw(context), "Junk after '#%.*s'.", directive_string.size, directive_string.data);
+                        }
+                        
+                        while(!peek_token_raw(context, TOKEN_newline)){
+                            next_token_raw(context);
+                        }
+                        got_newline = true;
+                        
                         maybe_push_file_to_include_stack(context, next_include);
+                        
+                        continue;
                     }else if(directive_kind == DIRECTIVE_embed){
                         assert(!have_postponed_directive); // @paranoid
                         
-- 
2.43.0


From 6db77ccb2e247437c46e544867de99b56e8b3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 044/132] fix: #embed ignored all but the first parameter

---
 src/preprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 53fe228..c7fbbc5 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -4571,6 +4571,8 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                 report_error(context, parameter, "Unknown #embed-parameter.");
                                 goto end;
                             }
+                            
+                            eat_whitespace_and_comments(context);
                         }
                         
                         struct file *parent_file = globals.file_table.data[directive->file_index];
-- 
2.43.0


From dc83bc857e1d294d53c0e3ef9995b0ac24d08edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 045/132] fix: alignment of initialized and thread-local
 variables in images and objects

---
 src/coff_writer.c | 9 ++++++---
 src/obj_writer.c  | 8 ++++----
 src/std.c         | 7 +++++++
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 263baa5..c42abfa 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1501,12 +1501,14 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         }
         
         if(tls_declarations.count){
+            u8 *tls_data_start;
             {
                 // Calculate the start of the tls section.
                 struct ast_declaration *first_tls_decl = (struct ast_declaration *)tls_declarations.first->value;
                 smm alignment = get_declaration_alignment(first_tls_decl);
                 push_align(arena, (u32)alignment); // @cleanup: why does push align take a u32?
-                tls_data_rva = make_relative_virtual_address(rdata_section_start, arena_current(arena));
+                tls_data_start = arena_current(arena);
+                tls_data_rva = make_relative_virtual_address(rdata_section_start, tls_data_start);
             }
             
             for_ast_list(tls_declarations){
@@ -1515,7 +1517,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 smm alignment = get_declaration_alignment(decl);
                 smm decl_size = get_declaration_size(decl);
                 
-                push_zero_align(arena, alignment);
+                push_zero_align_relative_to(arena, tls_data_start, alignment);
                 
                 if(decl_size == 0) decl_size = 1; // Ensure even zero-sized declarations have unique addresses.
                 
@@ -1576,7 +1578,8 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment);
+            // Align the relative virtual address (the position in the file is less aligned).
+            push_zero_align_relative_to(arena, data_section_start - section_virtual_address_at, alignment);
             
             assert(decl->memory_location);
             
diff --git a/src/obj_writer.c b/src/obj_writer.c
index 1ec2f64..7f8dafe 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1765,7 +1765,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     if(defined_variables.count || global_struct_and_array_literals.count){
         data = section_headers + section_header_count++;
         
-        push_zero_align(arena, 0x10); // @hack: This is because of the alignment thing below. 
+        push_zero_align(arena, 0x10);
         u8 *data_base = arena_current(arena);
         
         smm section_alignment = 1;
@@ -1782,7 +1782,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 smm alignment = get_declaration_alignment(decl);
                 smm decl_size = get_declaration_size(decl);
                 
-                push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
+                push_zero_align_relative_to(arena, data_base, alignment);
                 
                 section_alignment = max_of(section_alignment, alignment);
                 
@@ -1811,7 +1811,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     if(tls_variables.count){
         tls = section_headers + section_header_count++;
         
-        push_zero_align(arena, 0x10); // @hack: This is because of the alignment thing below. 
+        push_zero_align(arena, 0x10);
         
         u8 *tls_base = arena_current(arena);
         
@@ -1823,7 +1823,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
+            push_zero_align_relative_to(arena, tls_base, alignment);
             
             section_alignment = max_of(section_alignment, alignment);
             
diff --git a/src/std.c b/src/std.c
index 5e3a84a..f8c2edc 100644
--- a/src/std.c
+++ b/src/std.c
@@ -898,6 +898,13 @@ func void *push_struct_(struct memory_arena *arena, smm size, smm alignment){
     return ret;
 }
 
+// Align relative to 'base' (e.g. the start of a section) instead of relative to the memory of the arena.
+func void push_zero_align_relative_to(struct memory_arena *arena, u8 *base, smm alignment){
+    smm offset = arena_current(arena) - base;
+    smm padding = align_up(offset, alignment) - offset;
+    push_data(arena, u8, padding);
+}
+
 //_____________________________________________________________________________________________________________________
 // Temporary Memory
 
-- 
2.43.0


From c53a5d5e8fd553573549ab34bb107716b8903c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 046/132] fix: thread-local variables inside of functions were
 not placed in the TLS section

---
 src/coff_writer.c | 4 +++-
 src/obj_writer.c  | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index c42abfa..5122105 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -685,7 +685,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     
                     for_ast_list(function->static_variables){
                         struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
-                        if(static_decl->assign_expr){
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            ast_list_append(&tls_declarations, scratch, &static_decl->kind);
+                        }else if(static_decl->assign_expr){
                             ast_list_append(&initialized_declarations, scratch, &static_decl->kind);
                         }else{
                             ast_list_append(&uninitialized_declarations, scratch, &static_decl->kind);
diff --git a/src/obj_writer.c b/src/obj_writer.c
index 7f8dafe..213e8b2 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1272,7 +1272,12 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     
                     // @cleanup: These should work different for selectany.
                     for_ast_list(function->static_variables){
-                        ast_list_append(&defined_variables, scratch, it->value);
+                        struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            ast_list_append(&tls_variables, scratch, it->value);
+                        }else{
+                            ast_list_append(&defined_variables, scratch, it->value);
+                        }
                     }
                     continue;
                 }
-- 
2.43.0


From 5311eefa9d0a74a534a8e8c94b68f812927638fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 047/132] fix: do not write base relocations for the TLS
 directory of an image with a fixed base

---
 src/coff_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 5122105..242fbca 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1626,7 +1626,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
     
     // @hack: We manually add the relocation block for the tls section here.
     //        Once we re-write this whole backend, we can think about how to do this properly.
-    if(tls_declarations.count){
+    if(tls_declarations.count && !globals.cli_options.no_dynamic_base){
         u32 tls_base_rva = image_optional_header->data_directory[9].rva;
         
         smm page_rva = tls_base_rva & ~((1ull << 12) - 1);
-- 
2.43.0


From cb5a70ea04eea87c965997f8afc3214b5024c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 048/132] fix: alignment of over-aligned local variables

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index cca9553..e03829d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2181,8 +2181,8 @@ func void parser_emit_memory_location(struct context *context, struct ast_declar
     smm alignment = get_declaration_alignment(decl);
     smm size      = get_declaration_size(decl);
     
-    context->current_emit_offset_of_rsp = cast(smm)align_up(context->current_emit_offset_of_rsp, alignment);
-    context->current_emit_offset_of_rsp += size;
+    // The declaration is at '[rbp - offset]', hence the offset after adding the size has to be aligned.
+    context->current_emit_offset_of_rsp = cast(smm)align_up(context->current_emit_offset_of_rsp + size, alignment);
     
     if(context->current_emit_offset_of_rsp > max_s32){
         report_error(context, decl->identifier, "Too many local variables. At most '0x%x' bytes of stack are allowed.", max_s32);
-- 
2.43.0


From b78064e89d0186c9f18c4dbf9e00e39263a7dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 049/132] fix: initialisers overridden by a later designator
 left their relocation or the rest of their string behind

---
 src/main.c | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index e03829d..64323f6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2208,7 +2208,30 @@ func void parser_emit_memory_location(struct context *context, struct ast_declar
 //_____________________________________________________________________________________________________________________
 
 
-func void evaluate_static_initializer__internal(struct context *context, struct ir *initializer, struct ast_declaration *patch_declaration, u8 *data, smm data_size, smm root_offset){
+// An initializer in [offset, offset + size) overrides all previous initializers in this range.
+// Usually, initializers are in order, hence we only have to look for patches if we are below 'patch_end'.
+func void remove_overridden_patches(struct context *context, struct ast_declaration *patch_declaration, smm patch_end, smm offset, smm size){
+    if(offset >= patch_end) return;
+    
+    struct patch_node *previous = null;
+    for(struct patch_node *patch = context->local_patch_list.first; patch; patch = patch->next){
+        smm patch_offset = patch->location_offset_in_dest_declaration;
+        
+        if(patch->dest_declaration == patch_declaration && patch_offset < offset + size && offset < patch_offset + 8){
+            if(previous){
+                previous->next = patch->next;
+            }else{
+                context->local_patch_list.first = patch->next;
+            }
+            
+            if(!patch->next) context->local_patch_list.last = previous;
+        }else{
+            previous = patch;
+        }
+    }
+}
+
+func void evaluate_static_initializer__internal(struct context *context, struct ir *initializer, struct ast_declaration *patch_declaration, u8 *data, smm data_size, smm root_offset, smm *patch_end){
     
     // @cleanup: There has to be a better solution.
     struct token *error_token = get_initializer_token(patch_declaration);
@@ -2343,8 +2366,12 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                     smm lhs_size = lhs_type->size;
                     assert(offset + lhs_size <= data_size);
                     
+                    // The compound literal overrides everything, even the members it does not mention.
+                    remove_overridden_patches(context, patch_declaration, *patch_end, offset, lhs_size);
+                    memset(data + offset, 0, lhs_size);
+                    
                     // Recursively evaluate the compound literal.
-                    evaluate_static_initializer__internal(context, ir_node, patch_declaration, data, data_size, offset);
+                    evaluate_static_initializer__internal(context, ir_node, patch_declaration, data, data_size, offset, patch_end);
                 }else{
                     // Add this compound literal to the list of unnamed global declarations.
                     ast_list_append(&context->global_struct_and_array_literals, context->arena, &compound_literal->decl->kind);
@@ -2480,6 +2507,8 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 smm lhs_size = lhs_type->size;
                 assert(offset + lhs_size <= data_size);
                 
+                remove_overridden_patches(context, patch_declaration, *patch_end, offset, lhs_size);
+                
                 if(ir_stack[ir_stack_at].is_address){
                     // 
                     // We have to emit an absolute patch.
@@ -2493,6 +2522,7 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                         memcpy(data + offset, &offset_in_rhs, lhs_size);
                     }else{
                         emit_patch(context, PATCH_absolute, rhs, offset_in_rhs, patch_declaration, offset, -1);
+                        *patch_end = max_of(*patch_end, offset + 8);
                     }
                 }else{
                     struct ir *rhs = ir_stack[ir_stack_at].ir;
@@ -2569,9 +2599,9 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                             
                             memcpy(data + offset, str->value.data, str->value.size);
                             
-                            // @cleanup: should we memset the whole "upper" part?
-                            if(offset + str->value.size + lhs_array->element_type->size <= array_size){
-                                memset(&data[offset + str->value.size], 0, lhs_array->element_type->size); // zero-terminate
+                            // Zero the whole "upper" part, it might have been initialized by a previous designator.
+                            if(str->value.size < array_size && offset + array_size <= data_size){
+                                memset(&data[offset + str->value.size], 0, array_size - str->value.size);
                             }
                         }break;
                         
@@ -2634,7 +2664,8 @@ func u8 *evaluate_static_initializer(struct context *context, struct ast_declara
     push_zero_align(context->arena, data_align); // @cleanup: Do we need this?
     u8 *data = push_uninitialized_data(context->arena, u8, data_size); // @note: This will be zero-initialized, as we never free from arena.
     
-    evaluate_static_initializer__internal(context, decl->assign_expr, decl, data, data_size, 0);
+    smm patch_end = 0;
+    evaluate_static_initializer__internal(context, decl->assign_expr, decl, data, data_size, 0, &patch_end);
     
     return data;
 }
-- 
2.43.0


From 8d6c24e38f3ccd9d7951221458774cc35c6aba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 050/132] fix: _tls_index was undefined in objects which only
 use thread-local variables of other objects

---
 src/obj_writer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 213e8b2..e63f0b2 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1176,6 +1176,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     }
     
     u64 selectany_sections = 0;
+    u32 tls_index_is_referenced = false;
     
     for(struct compilation_unit *compilation_unit = &globals.hacky_global_compilation_unit; compilation_unit; compilation_unit = compilation_unit->next){
         
@@ -1198,6 +1199,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 // 
                 
                 if(decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    tls_index_is_referenced = true;
+                    
                     if((decl->flags & DECLARATION_FLAGS_is_extern) && !decl->assign_expr){
                         ast_list_append(&external_variables, scratch, &decl->kind);
                     }else{
@@ -1296,6 +1299,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         if(!(decl->flags & DECLARATION_FLAGS_is_reachable_from_entry)) continue;
         
         if(decl->kind == IR_declaration){
+            if(decl->flags & DECLARATION_FLAGS_is_thread_local) tls_index_is_referenced = true;
             ast_list_append(&external_variables, scratch, &decl->kind);
         }else{
             ast_list_append(&external_functions, scratch, &decl->kind);
@@ -1326,7 +1330,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
     }
     
-    if(tls_variables.count){
+    if(tls_variables.count || tls_index_is_referenced){
         // If there were tls variables, the index was referenced.
         ast_list_append(&external_variables, scratch, &globals.tls_index_declaration->kind);
     }
-- 
2.43.0


From 41b63ada32d055768f5d2e4f7795c108ec1161e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 051/132] fix: objects did not state the alignment of
 over-aligned common symbols

---
 src/obj_writer.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index e63f0b2..8fbc5fc 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1336,6 +1336,20 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     }
     
     
+    for_ast_list(automatic_variables){
+        struct ast_declaration *decl = (struct ast_declaration *)it->value;
+        
+        // The alignment of a common symbol is determined by its size.
+        // If we need a higher alignment we have to tell the linker.
+        smm alignment = get_declaration_alignment(decl);
+        smm default_alignment = 1;
+        while(default_alignment < 32 && default_alignment < decl->type->size) default_alignment *= 2;
+        
+        if(alignment > default_alignment){
+            string_list_postfix(&directives, scratch, push_format_string(scratch, "-aligncomm:\"%.*s\",%d ", decl->identifier->size, decl->identifier->data, (int)count_trailing_zeros64(alignment)));
+        }
+    }
+    
     // 
     // .OBJ layout:
     // 
-- 
2.43.0


From 672c2abaa867768d5f962b9d720ce4f3836b6ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 052/132] fix: uninitialised variables of size zero were
 undefined symbols in objects

---
 src/obj_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 8fbc5fc..201b479 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2624,7 +2624,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
         
         // @cleanup: @incomplete: alignment?
-        record->value = (s32)decl->type->size;
+        // @note: A value of zero would make this an undefined symbol.
+        record->value = (s32)max_of(decl->type->size, 1);
         record->section_number = 0; // section is _not yet_ defined.
         record->storage_class = /*IMAGE_SYM_CLASS_EXTERNAL*/2;
         record->type = 0;
-- 
2.43.0


From ff7e945659c6dd50c2c291eb494aa02546b2741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 053/132] fix: relocations of __declspec(selectany) variables
 in objects

---
 src/obj_writer.c | 63 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 4 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 201b479..ca8af60 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2339,6 +2339,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     // Selectany sections.
     // 
     
+    u64 selectany_section_index = section_header_count;
+    
     for_ast_list(selectany_variables){
         struct ast_declaration *decl = (struct ast_declaration *)it->value;
         
@@ -2828,15 +2830,12 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     
     smm amount_of_text_patches = 0;
     smm amount_of_data_patches = 0;
+    struct patch_node *selectany_patches = null;
     smm amount_of_tls_patches = 0;
     
     for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
         struct context *thread_context = globals.thread_infos[thread_index].context;
         
-        // 
-        // @cleanup: Patches to __declspec(selectany) variables probably do not work.
-        // 
-        
         for(struct patch_node *patch = thread_context->local_patch_list.first; patch; ){
             struct patch_node *next = patch->next;
             
@@ -2858,6 +2857,9 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     patch->next = tls_patches;
                     tls_patches = patch;
                     amount_of_tls_patches += 1;
+                }else if((dest_declaration->flags & DECLARATION_FLAGS_is_selectany) && !(dest_declaration->flags & (DECLARATION_FLAGS_is_static | DECLARATION_FLAGS_is_local_persist | DECLARATION_FLAGS_is_dllexport))){
+                    patch->next = selectany_patches;
+                    selectany_patches = patch;
                 }else{
                     patch->next = data_patches;
                     data_patches = patch;
@@ -3011,6 +3013,59 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     
     
     // @cleanup: STOP the copy and paste!
+    for_ast_list(selectany_variables){
+        if(!selectany_patches) break;
+        
+        struct ast_declaration *declaration = (struct ast_declaration *)it->value;
+        struct coff_section_header *section = section_headers + selectany_section_index++;
+        
+        u8 *selectany_relocations_data = arena_current(arena);
+        smm amount_of_selectany_patches = 0;
+        
+        for(struct patch_node *patch = selectany_patches; patch; patch = patch->next){
+            if(patch->dest_declaration != declaration) continue;
+            
+            assert(patch->kind == PATCH_absolute);
+            
+            struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+            relocation->relocation_type = /*ADDR64*/1;
+            relocation->destination_offset_in_section = (u32)patch->location_offset_in_dest_declaration;
+            
+            // @note: We need the source offset to already be applied to the data.
+            *(u64 *)(declaration->memory_location + patch->location_offset_in_dest_declaration) = patch->location_offset_in_source_declaration;
+            
+            if(patch->source->kind == IR_string_literal){
+                struct ir_string_literal *source = (struct ir_string_literal *)patch->source;
+                
+                relocation->source_symbol_table_index = (u32)(string_symbol_base + source->symbol_table_index);
+            }else{
+                struct ast_declaration *source = (struct ast_declaration *)patch->source;
+                
+                u32 is_reference_to_stub = (source->flags & DECLARATION_FLAGS_need_dllimport_stub_function) != 0;
+                relocation->source_symbol_table_index = (u32)source->symbol_table_index + is_reference_to_stub;
+            }
+            
+            amount_of_selectany_patches += 1;
+        }
+        
+        if(amount_of_selectany_patches){
+            section->pointer_to_relocations = (u32)(selectany_relocations_data - obj_base_address);
+            
+            if(amount_of_selectany_patches <= 0xffff){
+                section->number_of_relocations = (u16)amount_of_selectany_patches;
+            }else{
+                // :relocation_overflow, the first relocation contains the amount of relocations.
+                push_data(arena, u8, 10);
+                memmove(selectany_relocations_data + 10, selectany_relocations_data, 10 * amount_of_selectany_patches);
+                memset(selectany_relocations_data, 0, 10);
+                
+                section->characteristics |= /*IMAGE_SCN_LNK_NRELOC_OVFL*/0x01000000;
+                section->number_of_relocations = 0xffff;
+                ((struct coff_relocation *)selectany_relocations_data)->destination_offset_in_section = (u32)(amount_of_selectany_patches + 1);
+            }
+        }
+    }
+    
     if(amount_of_tls_patches){
         tls->pointer_to_relocations = (u32)(arena_current(arena) - obj_base_address);
         
-- 
2.43.0


From 9070fcd28e8f35ec38fd04fa9b59f4ecc45b41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 054/132] fix: sleep on a fresh work queue entry, re-queueing a
 dequeued entry could corrupt the queue (ABA)

---
 src/main.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 64323f6..1af3076 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3282,7 +3282,6 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
     if(context->error) return;
     if(context->should_sleep){
         struct token *sleep_on = context->sleep_on;
-        work->sleeping_on = context->sleep_on;
         
         parse_work->sleeping_ident = context->sleeping_ident;
         assert(!parse_work->sleeping_ident || parse_work->sleeping_ident->type == TOKEN_identifier);
@@ -3295,7 +3294,14 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
             if(is_static) sleeper_table = &context->current_compilation_unit->static_sleeper_table;
         }
         
-        sleeper_table_add(sleeper_table, work, sleep_on, context->sleep_purpose);
+        // @note: Sleep using a fresh entry. If the dequeued entry was added to the queue again, another thread
+        //        which is still inside of 'work_queue_get_work' could confuse the two (ABA) and corrupt the queue.
+        assert(context->arena->temp_count == 0);
+        struct work_queue_entry *sleeper = push_struct(context->arena, struct work_queue_entry);
+        sleeper->sleeping_on = sleep_on;
+        sleeper->data = work->data;
+        
+        sleeper_table_add(sleeper_table, sleeper, sleep_on, context->sleep_purpose);
         return;
     }
     
-- 
2.43.0


From beb5c3efbbed5aa5c560f16dc00e0c228c3814d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 055/132] fix: growing a table did not wait for threads between
 the lock check and registering themselves

---
 src/main.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/main.c b/src/main.c
index 1af3076..7134e1c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -177,11 +177,13 @@ func enum ast_kind *ast_table_add_or_return_previous_entry(struct ast_table *tab
             table->is_locked_for_growing = false;
         }
         
-        break;
+        // @note: Another thread might have locked the table after we checked 'is_locked_for_growing' above.
+        //        That thread only waits for the 'threads_in_flight' it can see, hence check again.
+        atomic_preincrement(&table->threads_in_flight);
+        if(!atomic_load(s64, table->is_locked_for_growing)) break;
+        atomic_predecrement(&table->threads_in_flight);
     }
     
-    atomic_preincrement(&table->threads_in_flight);
-    
     // @WARNING: this portion needs to stay in sync with :c_compat_build_global_definition_table
     
     assert(ast_to_insert);
@@ -219,9 +221,14 @@ func enum ast_kind *ast_table_add_or_return_previous_entry(struct ast_table *tab
 }
 
 func enum ast_kind *ast_table_get(struct ast_table *table, struct atom atom){
-    while(atomic_load(s64, table->is_locked_for_growing));
-    
-    atomic_preincrement(&table->threads_in_flight);
+    while(true){
+        while(atomic_load(s64, table->is_locked_for_growing));
+        
+        // @note: Same as in 'ast_table_add_or_return_previous_entry', check again after we are visible in 'threads_in_flight'.
+        atomic_preincrement(&table->threads_in_flight);
+        if(!atomic_load(s64, table->is_locked_for_growing)) break;
+        atomic_predecrement(&table->threads_in_flight);
+    }
     
     u64 index = atom.string_hash & table->mask;
     assert(index < table->capacity);
@@ -1332,6 +1339,7 @@ func struct sleeper_table sleeper_table_create(smm capacity){
     return sleeper_table;
 }
 
+// @note: Increments 'threads_in_flight' for the caller.
 func void sleeper_table_maybe_grow(struct sleeper_table *table){
     while(true){
         if(atomic_load(s64, table->is_locked_for_growing)) continue;
@@ -1386,15 +1394,17 @@ func void sleeper_table_maybe_grow(struct sleeper_table *table){
             // unlock
             table->is_locked_for_growing = false;
         }
-        break;
+        
+        // @note: Same as in 'ast_table_add_or_return_previous_entry', check again after we are visible in 'threads_in_flight'.
+        atomic_preincrement(&table->threads_in_flight);
+        if(!atomic_load(s64, table->is_locked_for_growing)) break;
+        atomic_predecrement(&table->threads_in_flight);
     }
 }
 
 func void sleeper_table_add(struct sleeper_table *table, struct work_queue_entry *entry, struct token *token, enum sleep_purpose sleep_purpose){
     sleeper_table_maybe_grow(table);
     
-    atomic_preincrement(&table->threads_in_flight);
-    
     assert(token);
     assert(entry);
     
@@ -1453,7 +1463,6 @@ func void sleeper_table_add(struct sleeper_table *table, struct work_queue_entry
 
 func u64 sleeper_table_delete(struct sleeper_table *table, struct token *token, enum sleep_purpose sleep_purpose){
     sleeper_table_maybe_grow(table);
-    atomic_preincrement(&table->threads_in_flight);
     
     assert(token);
     
-- 
2.43.0


From 6238ef6fe44d132bc68f688194074930af422ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 056/132] fix: a source file that cannot be read is reported,
 instead of crashing or compiling it as empty

---
 src/preprocess.c | 5 +++++
 src/std.c        | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index c7fbbc5..729b897 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2715,6 +2715,11 @@ func struct file *load_or_get_source_file_by_absolute_path(struct context *conte
     
     end_counter(context, load_file);
     
+    if(os_file.file_does_not_exist){
+        report_error(context, 0, "Error: File '%s' could not be read.", absolute_file_path);
+        goto end;
+    }
+    
     if(os_file.amount != file_size){
         report_error(context, 0, "Error: File '%s' changed during compilation.", absolute_file_path);
         goto end;
diff --git a/src/std.c b/src/std.c
index f8c2edc..b15e1a9 100644
--- a/src/std.c
+++ b/src/std.c
@@ -1787,9 +1787,12 @@ func void ticket_spinlock_unlock(struct ticket_spinlock *mutex){
 func struct os_file load_file_into_arena(char *file_name, struct memory_arena *arena){
     struct os_file file = os_load_file(file_name, 0, 0);
     assert(file.data == null);
+    if(file.file_does_not_exist) return file;
+    
     u8 *buf = push_uninitialized_data(arena, u8, file.amount + 1);
     buf[file.amount] = 0;
     file = os_load_file(file_name, buf, file.amount + 1);
+    if(!file.data) file.file_does_not_exist = true; // The file grew in between the two loads.
     return file;
 }
 
-- 
2.43.0


From 29893d86e24f63a857da4a4090718e345aa695a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 057/132] fix: report failing writes of the PDB

---
 src/coff_writer.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 242fbca..5220c48 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -350,6 +350,11 @@ struct msf_stream{
 // "Old stream table"-stream. Furthermore, everything past the first 3 pages 
 // is potentially "interrupted", by the later pages of the Free Page Maps.
 // 
+static int msf_write(HANDLE file_handle, void *data, u32 size){
+    DWORD bytes_written = 0;
+    return WriteFile(file_handle, data, size, &bytes_written, 0) && (bytes_written == size);
+}
+
 int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams){
     
     // 
@@ -527,7 +532,7 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
     HANDLE file_handle = CreateFileA(file_name, GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, NULL);
     if(file_handle == INVALID_HANDLE_VALUE) return 0;
     
-    WriteFile(file_handle, msf_header, 0x1000, 0, 0);
+    int success = msf_write(file_handle, msf_header, 0x1000);
     
     u64 write_offset = 0x1000;
     u64 next_free_page_maps = 0x1000;
@@ -556,11 +561,11 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                 if(range_end <= amount_of_pages){
                     // If the range covered by this free page map is entirely in the file,
                     // write all zeros (all allocated).
-                    WriteFile(file_handle, zero_buffer, 0x1000, 0, 0);
+                    success &= msf_write(file_handle, zero_buffer, 0x1000);
                 }else if(amount_of_pages < range_start){
                     // If the range covered by this free page map is entirely outside the file,
                     // write all ones (all free).
-                    WriteFile(file_handle, ones_buffer, 0x1000, 0, 0);
+                    success &= msf_write(file_handle, ones_buffer, 0x1000);
                 }else{
                     u8 buffer[0x1000] = {0};
                     
@@ -573,10 +578,10 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                         
                         buffer[byte_index] |= (u8)(1 << bit_index);
                     }
-                    WriteFile(file_handle, buffer, 0x1000, 0, 0);
+                    success &= msf_write(file_handle, buffer, 0x1000);
                 }
                 
-                WriteFile(file_handle, zero_buffer, 0x1000, 0, 0); // Ignored free page map.
+                success &= msf_write(file_handle, zero_buffer, 0x1000); // Ignored free page map.
                 
                 write_offset += 0x2000;
                 next_free_page_maps += 0x1000 * 0x1000;
@@ -588,11 +593,11 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                 size_to_write = (u32)(next_free_page_maps - write_offset);
             }
             
-            WriteFile(file_handle, stream.data + offset_in_stream, size_to_write, 0, 0);
+            success &= msf_write(file_handle, stream.data + offset_in_stream, size_to_write);
             
             if(size_to_write & 0xfff){
                 u32 size_to_zero = 0x1000 - (size_to_write & 0xfff);
-                WriteFile(file_handle, zero_buffer, size_to_zero, 0, 0); // Ignored free page map.
+                success &= msf_write(file_handle, zero_buffer, size_to_zero); // Ignored free page map.
                 size_to_write += size_to_zero;
             }
             
@@ -602,7 +607,7 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
     }
     
     CloseHandle(file_handle);
-    return 1;
+    return success;
 }
 
 //_____________________________________________________________________________________________________________________
-- 
2.43.0


From fcc0a82c8ff062dd60db7c0a364fc8e305973ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 058/132] fix: report running out of memory while parsing the
 command line; a file that cannot be read is not loaded

---
 src/windows.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/windows.c b/src/windows.c
index c6f3c83..e4a8626 100644
--- a/src/windows.c
+++ b/src/windows.c
@@ -726,6 +726,7 @@ static struct os_file os_load_file(char *file_name, void *buffer, smm buffer_siz
     if(!GetFileInformationByHandle(file_handle, &file_information)){
         CloseHandle(file_handle);
         // @reserche, when can this happen?
+        result.file_does_not_exist = true;
         return result;
     }
     
@@ -748,6 +749,8 @@ static struct os_file os_load_file(char *file_name, void *buffer, smm buffer_siz
     DWORD bytes_read;
     if(file_size && (!ReadFile(file_handle, buffer, cast(DWORD) file_size, &bytes_read, 0) || file_size != bytes_read)){
         CloseHandle(file_handle);
+        result.size = 0;
+        result.file_does_not_exist = true; // The contents are not available.
         return result;
     }
     
@@ -924,15 +927,23 @@ func smm windows_parse_command_line__internal(char *command_line, smm command_li
     return amount_of_arguments;
 }
 
+func void windows_command_line_out_of_memory(void){
+    char message[] = "Error: Ran out of memory while parsing the command line!\n";
+    os_print_string(message, sizeof(message) - 1);
+    os_panic(1);
+}
+
 func struct parsed_command_line windows_parse_command_line(char *command_line){
     smm command_line_size = cstring_length(command_line);
 
     char *preped_command_line = (char *)GlobalAlloc(GMEM_FIXED, command_line_size + 1);
+    if(!preped_command_line) windows_command_line_out_of_memory();
     
     smm amount_of_arguments = windows_parse_command_line__internal(
                                   command_line, command_line_size, preped_command_line);
     
     char **argv = (char **)GlobalAlloc(GMEM_FIXED, (amount_of_arguments + 1) * sizeof(char *));
+    if(!argv) windows_command_line_out_of_memory();
 
     
     char *at = preped_command_line;
-- 
2.43.0


From 10f2eac92e3fb83b6ef905a2859293c4cee881d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 059/132] fix: report failing writes of the preprocessed file
 and failing thread creation

---
 src/main.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7134e1c..822fb8b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2740,6 +2740,11 @@ func void reset_context(struct context *context){
     context->pragma_pack_stack.first = context->pragma_pack_stack.last = null;
 }
 
+func b32 write_to_preprocessed_file(void *data, smm size){
+    DWORD bytes_written = 0;
+    return WriteFile(globals.preprocessed_file_handle, data, (DWORD)size, &bytes_written, 0) && bytes_written == (DWORD)size;
+}
+
 func void worker_preprocess_file(struct context *context, struct work_queue_entry *work){
     
     struct work_tokenize_file *work_tokenize_file = cast(struct work_tokenize_file *)work->data;
@@ -2893,7 +2898,9 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
         
         smm preprocessed_file_size = (char *)arena_current(&context->scratch) - preprocessed_file_start;
         
-        WriteFile(globals.preprocessed_file_handle, preprocessed_file_start, (DWORD)preprocessed_file_size, NULL, NULL);
+        if(!write_to_preprocessed_file(preprocessed_file_start, preprocessed_file_size)){
+            report_error(context, 0, "Unable to write the preprocessed file.");
+        }
         return;
     }
     
@@ -4920,6 +4927,10 @@ globals.typedef_##postfix = (struct ast_type){
             }
             
             globals.preprocessed_file_handle = CreateFileA((char *)output_file_name.data, GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, NULL);
+            if(globals.preprocessed_file_handle == INVALID_HANDLE_VALUE){
+                print("Error: Unable to write file '%.*s'.\n", output_file_name.size, output_file_name.data);
+                return 1;
+            }
         }else{
             globals.preprocessed_file_handle = GetStdHandle(STD_OUTPUT_HANDLE);
         }
@@ -4987,7 +4998,11 @@ globals.typedef_##postfix = (struct ast_type){
     
     // @note: thread '0' is the main thread, so just start all other ones
     for(u32 thread_index = 1; thread_index < thread_count; thread_index++){
-        os_create_thread(work_thread_proc, &thread_infos[thread_index]);
+        struct os_thread_info thread = os_create_thread(work_thread_proc, &thread_infos[thread_index]);
+        if(!thread.handle){
+            print("Error: Failed to create a worker thread.\n");
+            os_panic(1);
+        }
     }
     
     while(globals.work_queue_tokenize_files.work_entries_in_flight > 0) worker_work(context, &globals.work_queue_tokenize_files, worker_preprocess_file);
@@ -5017,20 +5032,20 @@ globals.typedef_##postfix = (struct ast_type){
         //   1) #pragma comment(linker, "/ALTERNATENAME:strdup=_strdup")
         //   2) #pragma comment(lib, "dbghelp")
         
+        b32 success = true;
         char buffer[0x100];
         for(struct alternate_name *name = globals.alternate_names.first; name; name = name->next){
             int length = snprintf(buffer, sizeof(buffer), "#pragma comment(linker, \"/ALTERNATENAME:%.*s=%.*s\")\n", (int)name->source.size, name->source.data, (int)name->destination.size, name->destination.data);
-            DWORD chars_written;
-            WriteFile(globals.preprocessed_file_handle, buffer, (u32)length, &chars_written, 0);
+            success = write_to_preprocessed_file(buffer, length) && success;
         }
         
         for(struct specified_library *library = globals.specified_libraries.first; library; library = library->next){
             int length = snprintf(buffer, sizeof(buffer), "#pragma comment(lib, \"%.*s\")\n", (int)library->library_path.size, library->library_path.data);
-            DWORD chars_written;
-            WriteFile(globals.preprocessed_file_handle, buffer, (u32)length, &chars_written, 0);
+            success = write_to_preprocessed_file(buffer, length) && success;
         }
         
-        return 0;
+        if(!success) print("Error: Unable to write the preprocessed file.\n");
+        return !success;
     }
     
 #if 0
-- 
2.43.0


From d21a25fb806ed33c7a37d776aa1aedc7107eab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 060/132] fix: /P and /EP read beyond a stack buffer for long
 library paths and alternate names

---
 src/main.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 822fb8b..0b9390c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5033,15 +5033,14 @@ globals.typedef_##postfix = (struct ast_type){
         //   2) #pragma comment(lib, "dbghelp")
         
         b32 success = true;
-        char buffer[0x100];
         for(struct alternate_name *name = globals.alternate_names.first; name; name = name->next){
-            int length = snprintf(buffer, sizeof(buffer), "#pragma comment(linker, \"/ALTERNATENAME:%.*s=%.*s\")\n", (int)name->source.size, name->source.data, (int)name->destination.size, name->destination.data);
-            success = write_to_preprocessed_file(buffer, length) && success;
+            struct string pragma = push_format_string(arena, "#pragma comment(linker, \"/ALTERNATENAME:%.*s=%.*s\")\n", name->source.size, name->source.data, name->destination.size, name->destination.data);
+            success = write_to_preprocessed_file(pragma.data, pragma.size) && success;
         }
         
         for(struct specified_library *library = globals.specified_libraries.first; library; library = library->next){
-            int length = snprintf(buffer, sizeof(buffer), "#pragma comment(lib, \"%.*s\")\n", (int)library->library_path.size, library->library_path.data);
-            success = write_to_preprocessed_file(buffer, length) && success;
+            struct string pragma = push_format_string(arena, "#pragma comment(lib, \"%.*s\")\n", library->library_path.size, library->library_path.data);
+            success = write_to_preprocessed_file(pragma.data, pragma.size) && success;
         }
         
         if(!success) print("Error: Unable to write the preprocessed file.\n");
-- 
2.43.0


From 69fe8bd92993343d652a9fedf036b57e8ee34989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 061/132] fix: /no_debug was ignored for object files

---
 src/obj_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index ca8af60..816caf8 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1872,7 +1872,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     }
     
     u32 defined_function_func_id_base = 0;
-    {
+    if(!globals.cli_options.no_debug){
         debug_types = section_headers + section_header_count++;
         
         push_zero_align(arena, 4);
@@ -2045,7 +2045,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     // 
     struct debug_symbols_relocation_info *debug_symbols_relocations = push_data(scratch, struct debug_symbols_relocation_info, 0);
     
-    {
+    if(!globals.cli_options.no_debug){
         debug_symbols = section_headers + section_header_count++;
         
         push_zero_align(arena, 4);
-- 
2.43.0


From 96be348ff82aaa5167cc3381b9dc2f67a6aeadbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 062/132] fix: DllMain was ignored if /subsystem specified
 anything but windows

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 0b9390c..eaf86c3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5149,7 +5149,7 @@ globals.typedef_##postfix = (struct ast_type){
         for(u32 index = 0; index < array_count(table); index++){
             // Only check entry points, we are allowed to.
             if(globals.output_file_type != OUTPUT_FILE_unset && table[index].file_type != globals.output_file_type) continue;
-            if(globals.subsystem != 0 && table[index].subsystem != globals.subsystem) continue;
+            if(globals.subsystem != 0 && table[index].subsystem != globals.subsystem && globals.output_file_type != OUTPUT_FILE_dll) continue;
             if(globals.cli_options.entry.data && !string_match(table[index].entry_point_name, globals.cli_options.entry)) continue;
             
             struct atom atom = atom_for_string(table[index].entry_point_name);
@@ -5231,7 +5231,7 @@ globals.typedef_##postfix = (struct ast_type){
             }
             
             globals.output_file_type = table[index].file_type;
-            globals.subsystem        = table[index].subsystem;
+            if(globals.subsystem == 0) globals.subsystem = table[index].subsystem;
             globals.entry_point_name = atom;
             break;
         }
-- 
2.43.0


From 584f8c851aef78a08eb85219f8df476b091c9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 063/132] fix: exit with an error code if there are no input
 files

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index eaf86c3..d2d314f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4109,7 +4109,7 @@ int main(int argc, char *argv[]){
         }
         
         print("Error: No input files specified.\n");
-        return 0;
+        return 1;
     }
     
     if(!sll_is_empty(object_files.list)){
-- 
2.43.0


From 760cf50629f03b7b91fe8d3a0590201efbea7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 064/132] fix: a /thread_count of 0 dropped all diagnostics, a
 /thread_count of more than 2^63 crashed

---
 src/main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index d2d314f..52ddbcf 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4902,8 +4902,13 @@ globals.typedef_##postfix = (struct ast_type){
     GetSystemInfo(&system_info); // this cannot fail apperantly
     
     if(globals.cli_options.thread_count_specified){
+        if(globals.cli_options.thread_count == 0){
+            print("Error: /thread_count option specifies a thread count of 0.\n");
+            return 1;
+        }
+        
         thread_count = globals.cli_options.thread_count;
-        if(thread_count > 10 * system_info.dwNumberOfProcessors){
+        if(globals.cli_options.thread_count > 10 * (u64)system_info.dwNumberOfProcessors){
             print("Error: /thread_count option specifies a thread count of more than 10 times the number of processors on the system.\n");
             return 1;
         }
-- 
2.43.0


From 4e63d1f67fb65e8167912a4ec8e501738446a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 065/132] fix: string_to_u64 mis-parsed hexadecimal numbers and
 accepted invalid and empty strings

---
 src/std.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/std.c b/src/std.c
index b15e1a9..2a5a6c2 100644
--- a/src/std.c
+++ b/src/std.c
@@ -1675,14 +1675,20 @@ func u64 string_to_u64(struct string str, b32 *_out_success){
     
     u64 ret = 0;
     if(str.size > 2 && str.data[0] == '0' && (str.data[1]|32) == 'x'){
-        for(smm i = 0; i < str.length; i++){
+        for(smm i = 2; i < str.length; i++){
+            if(!u8_is_hex_number(str.data[i]) || (ret >> 60)){
+                *_out_success = false;
+                return 0;
+            }
             ret *= 16;
             ret += u8_parse_hex_to_binary(str.data[i]);
         }
     }else{
+        if(str.length == 0) *_out_success = false;
+        
         for(smm i = 0; i < str.length; i++){
             u64 val = str.data[i] - '0';
-            if(val > 10){
+            if(val > 9 || ret > (0xffffffffffffffff - val) / 10){
                 *_out_success = false;
                 return 0;
             }
-- 
2.43.0


From ba9a280db1677597d9f6afdac8ee14910ba061e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 066/132] fix: wmain with three parameters received the narrow
 argument vector

---
 implicit/pre_wmain_envp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/pre_wmain_envp.c b/implicit/pre_wmain_envp.c
index 13c1fe6..b60df26 100644
--- a/implicit/pre_wmain_envp.c
+++ b/implicit/pre_wmain_envp.c
@@ -56,7 +56,7 @@ int _start(void){
     envp_array[amount_of_environment_strings] = 0;
     
     
-    int exit_code = wmain(argc, argv, envp_array);
+    int exit_code = wmain(argc, wargv, envp_array);
     
     ExitProcess((unsigned int)exit_code);
 }
-- 
2.43.0


From 8d64cd2e8a50e2e7c3c8b95f07b15cf1bff1d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 067/132] fix: the command line passed to WinMain and wWinMain
 included the program name

---
 implicit/pre_WinMain.c  | 8 ++++++++
 implicit/pre_wWinMain.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/implicit/pre_WinMain.c b/implicit/pre_WinMain.c
index 3e768c1..ba62dbe 100644
--- a/implicit/pre_WinMain.c
+++ b/implicit/pre_WinMain.c
@@ -47,6 +47,14 @@ void _start(void){
     HINSTANCE hInstance = GetModuleHandleA(0); // @cleanup: __ImageBase?
     HINSTANCE hPrevInstance = 0; // "This parameter is always NULL."
     char *lpCmdLine = GetCommandLineA();
+    
+    // "The command line for the application, excluding the program name."
+    int in_quotes = 0;
+    for(; *lpCmdLine && (in_quotes || !character_is_whitespace(*lpCmdLine)); lpCmdLine++){
+        if(*lpCmdLine == '"') in_quotes = !in_quotes;
+    }
+    while(character_is_whitespace(*lpCmdLine)) lpCmdLine++;
+    
     int nShowCmd = (StartupInfo.dwFlags & /*STARTF_USESHOWWINDOW*/1) ? StartupInfo.wShowWindow : /*SW_SHOWDEFAULT*/10;
     
     int ExitCode = WinMain(hInstance, hPrevInstance, lpCmdLine, nShowCmd);
diff --git a/implicit/pre_wWinMain.c b/implicit/pre_wWinMain.c
index 23b7099..dc38a28 100644
--- a/implicit/pre_wWinMain.c
+++ b/implicit/pre_wWinMain.c
@@ -50,6 +50,14 @@ void _start(void){
     HINSTANCE hInstance = GetModuleHandleW(0); // @cleanup: __ImageBase?
     HINSTANCE hPrevInstance = 0; // "This parameter is always NULL."
     wchar_t *lpCmdLine = GetCommandLineW();
+    
+    // "The command line for the application, excluding the program name."
+    int in_quotes = 0;
+    for(; *lpCmdLine && (in_quotes || !wchar_is_whitespace(*lpCmdLine)); lpCmdLine++){
+        if(*lpCmdLine == '"') in_quotes = !in_quotes;
+    }
+    while(wchar_is_whitespace(*lpCmdLine)) lpCmdLine++;
+    
     int nShowCmd = (StartupInfo.dwFlags & /*STARTF_USESHOWWINDOW*/1) ? StartupInfo.wShowWindow : /*SW_SHOWDEFAULT*/10;
     
     int ExitCode = wWinMain(hInstance, hPrevInstance, lpCmdLine, nShowCmd);
-- 
2.43.0


From ed56a0c0021d01b5dd43d14b807daf3633194ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 068/132] fix: --help for options with a directory argument
 crashed

---
 meta_programs/parse_cli.c | 4 ++--
 src/cli.c                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/meta_programs/parse_cli.c b/meta_programs/parse_cli.c
index 7e7226a..7633c70 100644
--- a/meta_programs/parse_cli.c
+++ b/meta_programs/parse_cli.c
@@ -1055,7 +1055,7 @@ int main(int argc, char *argv[]){
             "            case CLI_ARGUMENT_TYPE_none: break;\n"
             "            \n"
             "            case CLI_ARGUMENT_TYPE_directory_list:{\n"
-            "                if(!path_is_directory(option_argument)){\n"
+            "                if(option_argument && !path_is_directory(option_argument)){\n"
             "                    print(\"Warning: Argument '%s' of command line option '%s' must be a directory, but it is not.\\n\", option_argument, option_cstring);\n"
             "                    continue;\n"
             "                }\n"
@@ -1067,7 +1067,7 @@ int main(int argc, char *argv[]){
             "            case CLI_ARGUMENT_TYPE_option: break;\n"
             "            case CLI_ARGUMENT_TYPE_warning: break;\n"
             "            case CLI_ARGUMENT_TYPE_directory:{\n"
-            "                if(!path_is_directory(option_argument)){\n"
+            "                if(option_argument && !path_is_directory(option_argument)){\n"
             "                    print(\"Error: Argument '%s' of command line option '%s' must be a directory, but it is not.\\n\", option_argument, option_cstring);\n"
             "                    return 0;\n"
             "                }\n"
diff --git a/src/cli.c b/src/cli.c
index b9d77ed..0ffcd2a 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -483,7 +483,7 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
             case CLI_ARGUMENT_TYPE_none: break;
             
             case CLI_ARGUMENT_TYPE_directory_list:{
-                if(!path_is_directory(option_argument)){
+                if(option_argument && !path_is_directory(option_argument)){
                     print("Warning: Argument '%s' of command line option '%s' must be a directory, but it is not.\n", option_argument, option_cstring);
                     continue;
                 }
@@ -495,7 +495,7 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
             case CLI_ARGUMENT_TYPE_option: break;
             case CLI_ARGUMENT_TYPE_warning: break;
             case CLI_ARGUMENT_TYPE_directory:{
-                if(!path_is_directory(option_argument)){
+                if(option_argument && !path_is_directory(option_argument)){
                     print("Error: Argument '%s' of command line option '%s' must be a directory, but it is not.\n", option_argument, option_cstring);
                     return 0;
                 }
-- 
2.43.0


From 97d0f509d05035ee0e6365c4990392311e6ac458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 069/132] fix: -Wno<warning> was interpreted as -W no<warning>

---
 meta_programs/hlc.cli |  8 ++++----
 src/cli.c             | 40 ++++++++++++++++++++--------------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/meta_programs/hlc.cli b/meta_programs/hlc.cli
index 29a8fd5..bfb8bbe 100644
--- a/meta_programs/hlc.cli
+++ b/meta_programs/hlc.cli
@@ -147,15 +147,15 @@ Enable all implemented warnings. To see a list of all warnings use `hlc.exe --he
 
 Disable all implemented warnings. To see a list of all warnings use `hlc.exe --help W`.
 
-/W <warning> - Enable specific warnings.
+/Wno <warning> | /wd <warning> - Disable specific warnings.
 
-Enables a specific warning. Warnings can be supplied either by their name, or by their number.
+Disables a specific warning. Warnings can be supplied either by their name, or by their number.
 For a list of all warnings see `hlc --help warning`. For help on a specific warning, see
 `hlc --help warning <warning>`, e.g.: `hlc --help warning type_mismatch`.
 
-/Wno <warning> | /wd <warning> - Disable specific warnings.
+/W <warning> - Enable specific warnings.
 
-Disables a specific warning. Warnings can be supplied either by their name, or by their number.
+Enables a specific warning. Warnings can be supplied either by their name, or by their number.
 For a list of all warnings see `hlc --help warning`. For help on a specific warning, see
 `hlc --help warning <warning>`, e.g.: `hlc --help warning type_mismatch`.
 
diff --git a/src/cli.c b/src/cli.c
index 0ffcd2a..de2f78b 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -30,8 +30,8 @@ enum cli_option_kind{
     CLI_OPTION_D,
     CLI_OPTION_Wall,
     CLI_OPTION_Wnone,
-    CLI_OPTION_W,
     CLI_OPTION_Wno,
+    CLI_OPTION_W,
     CLI_OPTION_incremental,
     CLI_OPTION_MF,
     CLI_OPTION_l,
@@ -103,9 +103,9 @@ struct cli_option_hash_table_entry{
     [9] = {{1, (u8 *)"d"}, CLI_ARGUMENT_TYPE_string_list, CLI_OPTION_D, 0},
     [23] = {{4, (u8 *)"wall"}, CLI_ARGUMENT_TYPE_none, CLI_OPTION_Wall, -1},
     [12] = {{5, (u8 *)"wnone"}, CLI_ARGUMENT_TYPE_none, CLI_OPTION_Wnone, -1},
-    [28] = {{1, (u8 *)"w"}, CLI_ARGUMENT_TYPE_warning, CLI_OPTION_W, 0},
     [57] = {{3, (u8 *)"wno"}, CLI_ARGUMENT_TYPE_warning, CLI_OPTION_Wno, 0},
     [0] = {{2, (u8 *)"wd"}, CLI_ARGUMENT_TYPE_warning, CLI_OPTION_Wno, 0},
+    [28] = {{1, (u8 *)"w"}, CLI_ARGUMENT_TYPE_warning, CLI_OPTION_W, 0},
     [119] = {{11, (u8 *)"incremental"}, CLI_ARGUMENT_TYPE_enum, CLI_OPTION_incremental, 0},
     [56] = {{2, (u8 *)"mf"}, CLI_ARGUMENT_TYPE_string, CLI_OPTION_MF, 0},
     [17] = {{1, (u8 *)"l"}, CLI_ARGUMENT_TYPE_string_list, CLI_OPTION_l, 0},
@@ -427,15 +427,15 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
             }else if(string_front_match_eat(&option, "D")){
                 option_argument_type = CLI_ARGUMENT_TYPE_string_list;
                 option_kind          = CLI_OPTION_D;
-            }else if(string_front_match_eat(&option, "W")){
-                option_argument_type = CLI_ARGUMENT_TYPE_warning;
-                option_kind          = CLI_OPTION_W;
             }else if(string_front_match_eat(&option, "Wno")){
                 option_argument_type = CLI_ARGUMENT_TYPE_warning;
                 option_kind          = CLI_OPTION_Wno;
             }else if(string_front_match_eat(&option, "wd")){
                 option_argument_type = CLI_ARGUMENT_TYPE_warning;
                 option_kind          = CLI_OPTION_Wno;
+            }else if(string_front_match_eat(&option, "W")){
+                option_argument_type = CLI_ARGUMENT_TYPE_warning;
+                option_kind          = CLI_OPTION_W;
             }else if(string_front_match_eat(&option, "MF")){
                 option_argument_type = CLI_ARGUMENT_TYPE_string;
                 option_kind          = CLI_OPTION_MF;
@@ -706,14 +706,6 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
                             "Disable all implemented warnings. To see a list of all warnings use `hlc.exe --help W`.\n"
                             "", 88);
                 }break;
-                case CLI_OPTION_W:{
-                    print("-W <warning> | Enable specific warnings.\n\n");
-                    os_print_string(
-                            "Enables a specific warning. Warnings can be supplied either by their name, or by their number.\n"
-                            "For a list of all warnings see `hlc --help warning`. For help on a specific warning, see\n"
-                            "`hlc --help warning <warning>`, e.g.: `hlc --help warning type_mismatch`.\n"
-                            "", 258);
-                }break;
                 case CLI_OPTION_Wno:{
                     print("-Wno <warning> | Disable specific warnings.\n\n");
                     os_print_string(
@@ -722,6 +714,14 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
                             "`hlc --help warning <warning>`, e.g.: `hlc --help warning type_mismatch`.\n"
                             "", 259);
                 }break;
+                case CLI_OPTION_W:{
+                    print("-W <warning> | Enable specific warnings.\n\n");
+                    os_print_string(
+                            "Enables a specific warning. Warnings can be supplied either by their name, or by their number.\n"
+                            "For a list of all warnings see `hlc --help warning`. For help on a specific warning, see\n"
+                            "`hlc --help warning <warning>`, e.g.: `hlc --help warning type_mismatch`.\n"
+                            "", 258);
+                }break;
                 case CLI_OPTION_incremental:{
                     print("-incremental <enum> | Does nothing, here for MSVC cli-compatibility.\n\n");
                     os_print_string(
@@ -950,8 +950,8 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
                             "  -D <name[=<text>]>          | Define a macro. Equivalent to '#define <name> <text>' or '#define <name> 1'.\n"
                             "  -Wall                       | Enable all warnings.\n"
                             "  -Wnone                      | Disable all warnings.\n"
-                            "  -W <warning>                | Enable specific warnings.\n"
                             "  -Wno <warning>              | Disable specific warnings.\n"
+                            "  -W <warning>                | Enable specific warnings.\n"
                             "  -incremental <enum>         | Does nothing, here for MSVC cli-compatibility.\n"
                             "  -MF <file>                  | Currently ignored, is supposed to produce a .dep file?\n"
                             "  -l <library>                | Link to the specified library.\n"
@@ -1040,14 +1040,14 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
             case CLI_OPTION_Wall: memset(warning_enabled, 1, sizeof(warning_enabled)); break;
             case CLI_OPTION_Wnone: memset(warning_enabled, 0, sizeof(warning_enabled)); break;
             
-            case CLI_OPTION_W:{
+            case CLI_OPTION_Wno:{
                 int is_number = 1;
                 u64 warning_value = string_to_u64(argument_string, &is_number);
                 if(is_number){
                     if(warning_value >= WARNING_count){
                         print("Warning: Unhandled warning value %lld.\n", warning_value);
                     }else{
-                        warning_enabled[warning_value] = 1;
+                        warning_enabled[warning_value] = 0;
                     }
                     break;
                 }
@@ -1083,18 +1083,18 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
                 if(!warning_entry){
                     print("Warning: Unhandled warning value '%.*s'.\n", argument_string.size, argument_string.data);
                 }else{
-                    warning_enabled[warning_entry->warning_kind] = 1;
+                    warning_enabled[warning_entry->warning_kind] = 0;
                 }
             }break;
             
-            case CLI_OPTION_Wno:{
+            case CLI_OPTION_W:{
                 int is_number = 1;
                 u64 warning_value = string_to_u64(argument_string, &is_number);
                 if(is_number){
                     if(warning_value >= WARNING_count){
                         print("Warning: Unhandled warning value %lld.\n", warning_value);
                     }else{
-                        warning_enabled[warning_value] = 0;
+                        warning_enabled[warning_value] = 1;
                     }
                     break;
                 }
@@ -1130,7 +1130,7 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
                 if(!warning_entry){
                     print("Warning: Unhandled warning value '%.*s'.\n", argument_string.size, argument_string.data);
                 }else{
-                    warning_enabled[warning_entry->warning_kind] = 0;
+                    warning_enabled[warning_entry->warning_kind] = 1;
                 }
             }break;
             
-- 
2.43.0


From 709a385f3de62d595baa5c1523885118c5fac100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 070/132] fix: the option -warning, which only exists for
 -help, fired an assertion

---
 meta_programs/parse_cli.c | 5 ++++-
 src/cli.c                 | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/meta_programs/parse_cli.c b/meta_programs/parse_cli.c
index 7633c70..72094d7 100644
--- a/meta_programs/parse_cli.c
+++ b/meta_programs/parse_cli.c
@@ -1344,9 +1344,12 @@ int main(int argc, char *argv[]){
         print("            }break;\n");
     }
     print("            \n");
+    print("            case CLI_OPTION_warning:{\n");
+    print("                print(\"Warning: Option '%%s' is only available as '-help warning'.\\n\", option_cstring);\n");
+    print("            }break;\n");
+    print("            \n");
     print("            case CLI_OPTION_count:\n");
     print("            case CLI_OPTION_none:\n");
-    print("            case CLI_OPTION_warning:\n");
     print("                invalid_code_path;\n");
     print("        }\n"); // switch terminator.
     
diff --git a/src/cli.c b/src/cli.c
index de2f78b..adc5466 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1204,9 +1204,12 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
             }break;
             case CLI_OPTION_link: cli_options->link = 1; break;
             
+            case CLI_OPTION_warning:{
+                print("Warning: Option '%s' is only available as '-help warning'.\n", option_cstring);
+            }break;
+            
             case CLI_OPTION_count:
             case CLI_OPTION_none:
-            case CLI_OPTION_warning:
                 invalid_code_path;
         }
     }
-- 
2.43.0


From b650527faedd7a43571ef7c01df1d23cbcc291dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 071/132] fix: -help for options with a number as argument
 (after rejecting empty numbers)

---
 meta_programs/parse_cli.c | 1 +
 src/cli.c                 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/meta_programs/parse_cli.c b/meta_programs/parse_cli.c
index 72094d7..ce5e3d1 100644
--- a/meta_programs/parse_cli.c
+++ b/meta_programs/parse_cli.c
@@ -1073,6 +1073,7 @@ int main(int argc, char *argv[]){
             "                }\n"
             "            }break;\n"
             "            case CLI_ARGUMENT_TYPE_u64:{\n"
+            "                if(!option_argument) break; // '-help <option>'.\n"
             "                int success = true;\n"
             "                argument_as_u64 = string_to_u64(argument_string, &success);\n"
             "                if(!success){\n"
diff --git a/src/cli.c b/src/cli.c
index adc5466..4045879 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -501,6 +501,7 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
                 }
             }break;
             case CLI_ARGUMENT_TYPE_u64:{
+                if(!option_argument) break; // '-help <option>'.
                 int success = true;
                 argument_as_u64 = string_to_u64(argument_string, &success);
                 if(!success){
-- 
2.43.0


From 1ebef15b1c83285eab58990da3e28ceaf708dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:38 +0000
Subject: [PATCH 072/132] fix: the order of diagnostics at unnamed structures
 and enums depended on the placement of memory

---
 src/diagnostic.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/diagnostic.c b/src/diagnostic.c
index 9227602..8543aea 100644
--- a/src/diagnostic.c
+++ b/src/diagnostic.c
@@ -67,6 +67,10 @@ struct error_report_node{
     struct string error;
 };
 
+func int is_unnamed_token(struct token *token){
+    return atoms_match(token->atom, globals.unnamed_tag) || atoms_match(token->atom, globals.unnamed_enum);
+}
+
 func int error_node_smaller_function(struct error_report_node *it, struct error_report_node *piveot){
     //
     // sort by compilation unit
@@ -112,6 +116,19 @@ func int error_node_smaller_function(struct error_report_node *it, struct error_
         case COMPILE_STAGE_emit_code:{
             // we know the tokens are in the preprocessed token array of the compilation unit.
             // so we can just sort by _token index_.
+            //
+            // @note: This is not true for the tokens we make up for unnamed structures, unions and enums,
+            //        these are copies of the token, hence for them we have to compare the location.
+            //        Otherwise, the order would depend on where the system placed our memory.
+            if(is_unnamed_token(it->token) || is_unnamed_token(piveot->token)){
+                if(it->token->file_index < piveot->token->file_index) return true;
+                if(it->token->file_index > piveot->token->file_index) return false;
+                
+                if(it->token->line < piveot->token->line) return true;
+                if(it->token->line > piveot->token->line) return false;
+                
+                return it->token->column < piveot->token->column;
+            }
             return (smm)it->token < (smm)piveot->token;
         }break;
         invalid_default_case(return false);
-- 
2.43.0


From a37eeccb437abf227f8407322941444af5f4efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:38 +0000
Subject: [PATCH 073/132] fix: the name of a function-like macro at the end of
 a line swallowed the newline, and with it the end of a directive or the start
 of the next one

---
 src/preprocess.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 729b897..a952d2f 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3539,6 +3539,9 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                 break;
             }
             
+            // Set if the search for the '(' of a function-like macro skipped a newline, the next '#' might be a directive.
+            b32 newline_after_token = false;
+            
             if(token->type == TOKEN_identifier){
                 struct define_node *define = lookup_define(context, token->atom);
                 if(define && !define->is_disabled){
@@ -3547,9 +3550,17 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                     
                     int skip = 0;
                     if(define->is_function_like){
-                        eat_whitespace_comments_and_newlines(context); 
+                        // @note: A newline ends the directive, but otherwise the '(' may be on another line.
+                        eat_whitespace_and_comments(context);
+                        while(!have_postponed_directive && peek_token_eat_raw(context, TOKEN_newline)){
+                            newline_after_token = true;
+                            eat_whitespace_and_comments(context);
+                        }
+                        
                         if(!peek_token_raw(context, TOKEN_open_paren)){
                             skip = 1;
+                        }else{
+                            newline_after_token = false;
                         }
                     }
                     
@@ -3635,7 +3646,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                 continue; // Don't emit the newline token.
             }
             
-            got_newline = false;
+            got_newline = newline_after_token;
             
             if(emitted_tokens == committed_tokens){
                 if(committed_tokens == reserved_tokens){
-- 
2.43.0


From 56ce10a9db7652ee0303e05db3a57d0e6668b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:38 +0000
Subject: [PATCH 074/132] fix: ?:, && and || in the filter of an __except
 crashed the compiler

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 1c0a637..d648ef2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -9842,6 +9842,7 @@ func void parse_statement(struct context *context){
                     push_ir(context, IR_return);
                     
                     filter_function->end_in_ir_arena = arena_current(&context->ir_arena);
+                    filter_function->amount_of_jump_labels = context->jump_label_index; // The filter expression might contain '?:', '&&' or '||'.
                     filter_scope->end_offset = (u32)(filter_function->end_in_ir_arena - filter_function->start_in_ir_arena);
                     
                     {
-- 
2.43.0


From e534196ac929e09ee4dffb626dbb5ebf4d855d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:38 +0000
Subject: [PATCH 075/132] fix: report that __finally is not supported, instead
 of crashing

---
 src/parse.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index d648ef2..43f1d58 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -9883,7 +9883,11 @@ func void parse_statement(struct context *context){
                 struct ir_jump_node *end_label = push_jump(context, IR_jump_label);
                 end_label->label_number = label_index;
                 
-            }else if(peek_token_eat(context, TOKEN_seh_finally)){
+            }else if(peek_token(context, TOKEN_seh_finally)){
+                
+                // @incomplete: The __finally-block would have to be emitted as a termination handler. Without one
+                //              (the 'filter_function'), we cannot write the unwind information.
+                report_error(context, next_token(context), "'__finally' is currently not supported.");
                 
                 struct ir_exception_marker *end_marker = push_struct(&context->ir_arena, struct ir_exception_marker);
                 end_marker->base.kind = IR_end_exception_block;
-- 
2.43.0


From 57a0e5a7a3263df4a564ec50c68d70bc5d7ea1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:38 +0000
Subject: [PATCH 076/132] fix: crashes after errors in operands of inline
 assembly

---
 src/parse_asm_block.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 5dcb769..a27817f 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1427,6 +1427,8 @@ func struct asm_operand asm_maybe_parse_expression_operand(struct context *conte
     
     if(!expression_okay){
         report_error(context, expr.token, "Currently, only expressions of the form 'a.b.c' or 'array[<const>]' are allowed as inline asm operands.");
+        operand.kind = ASM_ARG_invalid;
+        return operand;
     }
     
     struct ast_type *type = expr.resolved_type;
@@ -1437,6 +1439,8 @@ func struct asm_operand asm_maybe_parse_expression_operand(struct context *conte
         }
         
         report_error(context, expr.token, "Invalid type for asm operand.%s", remark);
+        operand.kind = ASM_ARG_invalid;
+        return operand;
     }
     
     operand.register_kind_when_loaded = get_register_kind_for_type(type);
@@ -2364,7 +2368,9 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
     }
     
     // Make sure the instruction has its size inferred.
-    assert(regm_index == -1 || asm_instruction->operands[regm_index].size != 0);
+    if(regm_index != -1 && asm_instruction->operands[regm_index].size == 0 && !context->error){
+        report_error(context, token, "Cannot infer operand size for memory operand.");
+    }
     
     if(asm_instruction){
         asm_instruction->prefixes = context->current_asm_flags;
-- 
2.43.0


From bc2b025896674630a816b2e7d17885b313f97da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 077/132] fix: crash on a changed pragma pack stack inside a
 function

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 52ddbcf..7264901 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3182,7 +3182,7 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
         if(start_pragma_pack_node != context->pragma_pack_stack.first){
             
             int handled = false;
-            if(start_pragma_pack_node->next == context->pragma_pack_stack.first){
+            if(start_pragma_pack_node && start_pragma_pack_node->next == context->pragma_pack_stack.first){
                 // 
                 // Stupid hack for stuff like:
                 //    
-- 
2.43.0


From a6f81d45607582b4fafe523d57a1f4cdeedb13a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 078/132] fix: crash on unterminated string literals in
 directives of included files

---
 src/std.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/std.c b/src/std.c
index 2a5a6c2..674dd3a 100644
--- a/src/std.c
+++ b/src/std.c
@@ -1348,8 +1348,11 @@ func struct string strip_prefix_and_quotes(struct string string){
     
     eat_until_char(&string, '"', /*eat_delimiter*/0);
     
-    assert(string.size >= 2);
-    assert(string.data[0] == string.data[string.size - 1]);
+    if(string.size < 2 || string.data[0] != string.data[string.size - 1]){
+        // The tokenizer has already reported that the string literal is unterminated.
+        return string;
+    }
+    
     string.data += 1;
     string.size -= 2;
     return string;
-- 
2.43.0


From be2d1bcfcf5664ad6874eb0c70849e2b2abb53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 079/132] fix: reject taking the address of a bit-field

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 43f1d58..85a96c2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -6014,6 +6014,11 @@ case NUMBER_KIND_##type:{ \
                     return operand;
                 }
                 
+                if(operand.resolved_type->kind == AST_bitfield_type){
+                    report_error(context, operand.token, "Cannot take the address of a bit-field.");
+                    return operand;
+                }
+                
                 if(operand.ir->kind == IR_pointer_literal_deref){
                     operand.ir->kind = IR_pointer_literal;
                     
-- 
2.43.0


From c06ee0f00de2eb7b8ec06c44d658377adf4d794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 080/132] fix: reject the addition of two pointers

---
 src/parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 85a96c2..40b31dd 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -6195,6 +6195,9 @@ case NUMBER_KIND_##type:{ \
                         
                         operand.resolved_type = &globals.typedef_s64;
                         operand.defined_type = null;
+                    }else if(ast_kind == AST_binary_plus && op_lhs->resolved_type->kind == AST_pointer_type && op_rhs->resolved_type->kind == AST_pointer_type){
+                        report_error(context, stack_entry->token, "Cannot add two pointers.");
+                        return operand;
                     }else if(op_lhs->resolved_type->kind == AST_integer_type && op_rhs->resolved_type->kind == AST_pointer_type){
                         
                         if(ast_kind == AST_binary_minus){
-- 
2.43.0


From 101f30bd476a5c112aa30f33d1b1b170645b74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 081/132] fix: functions with and without variable arguments
 have different types

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 40b31dd..59a5f1c 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -975,6 +975,7 @@ func struct ast_type *types_are_equal(struct ast_type *wanted, struct ast_type *
         struct ast_function_type *given_function  = cast(struct ast_function_type *)given;
         
         if(wanted_function->argument_list.count != given_function->argument_list.count) return null;
+        if((wanted_function->flags ^ given_function->flags) & FUNCTION_TYPE_FLAGS_is_varargs) return null;
         
         if(!types_are_equal(wanted_function->return_type, given_function->return_type)){
             return null;
-- 
2.43.0


From c26afe6416ae751309147f5685216dfa2d93c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 082/132] fix: crashes when objects of incomplete type are used
 as values

---
 src/parse.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 59a5f1c..c65c876 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3125,6 +3125,9 @@ func struct ast_declaration *push_unnamed_declaration(struct context *context, s
 void maybe_insert_implicit_nodes_for_varargs_argument(struct context *context, struct expr *expr){
     maybe_load_address_for_array_or_function(context, IR_load_address, expr);
     
+    // Objects of an incomplete type (e.g. 'extern struct s s;') can't be passed.
+    if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &expr->resolved_type)) return;
+    
     if(expr->resolved_type->kind == AST_integer_type || expr->resolved_type->kind == AST_bitfield_type){
         // "The integer promotions are performed on each argument."
         maybe_insert_integer_promotion_cast(context, AST_cast, expr);
@@ -6875,6 +6878,10 @@ case NUMBER_KIND_##type:{ \
                 maybe_load_address_for_array_or_function(context, IR_load_address, if_false);
                 maybe_insert_cast_from_special_int_to_int(context, if_false, /*is_lhs*/0);
                 
+                // Objects of an incomplete type (e.g. 'extern struct s s;') don't have a value.
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &if_true->resolved_type)) return operand;
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &if_false->resolved_type)) return operand;
+                
                 // "one of the following shall hold":
                 
                 // "- both are arithmetic types"
@@ -6963,6 +6970,10 @@ case NUMBER_KIND_##type:{ \
                 
                 other->ir = null; // just to be _save_.
                 
+                // Objects of an incomplete type (e.g. 'extern struct s s;') don't have a value.
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &value->resolved_type)) return operand;
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &other->resolved_type)) return operand;
+                
                 // "- both are arithmetic types"
                 if(type_is_arithmetic(value->resolved_type) && type_is_arithmetic(other->resolved_type)){
                     struct ast_type *arithmetic_type = perform_usual_arithmetic_conversions(value->resolved_type, other->resolved_type);
@@ -6978,7 +6989,7 @@ case NUMBER_KIND_##type:{ \
                     
                     // "- one operand is a pointer and the other is a null pointer constant"
                     if(value->resolved_type->kind == AST_integer_type && other->resolved_type->kind == AST_pointer_type){
-                        if(integer_literal_as_u64(value) == 0){
+                        if(value->ir->kind == IR_integer_literal && integer_literal_as_u64(value) == 0){
                             value->resolved_type = other->resolved_type;
                             value->defined_type = other->defined_type;
                             
@@ -7036,6 +7047,11 @@ case NUMBER_KIND_##type:{ \
                 }
                 
                 maybe_load_address_for_array_or_function(context, IR_load_address, &operand);
+                
+                // Objects of an incomplete type (e.g. 'extern struct s s;') can't be assigned.
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &lhs->resolved_type)) return operand;
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &operand.resolved_type)) return operand;
+                
                 maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, lhs->resolved_type, lhs->defined_type, &operand, stack_entry->token);
                 
                 struct ast_type *lhs_type = lhs->resolved_type;
-- 
2.43.0


From 138e73c2e205cfe0ea32d38dc98d2899e0539de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 083/132] fix: exception filters accessed the wrong stack frame

---
 src/emit_x64.c | 37 ++++++++++++++++++++++++++-----------
 src/main.c     |  1 +
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 3fb6daa..bb04a23 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -833,6 +833,12 @@ func struct emit_location *emit_location_stack_relative(struct context *context,
     return emit_location_register_relative__internal(context, context->register_bp, null, -offset, size, null);
 }
 
+// The location of a declaration on the stack. An exception filter is emitted as a separate function, but its expression 
+// refers to the declarations of the function it is contained in.
+func struct emit_location *emit_location_declaration(struct context *context, smm offset, smm size){
+    return emit_location_register_relative__internal(context, context->register_frame, null, -offset, size, null);
+}
+
 func struct emit_location *emit_location_immediate(struct context *context, u64 value, smm size){
     struct emit_location *ret = push_uninitialized_struct(&context->scratch, struct emit_location);
     ret->state = EMIT_LOCATION_immediate;
@@ -1040,7 +1046,7 @@ func void spill_all_allocated_volatile_registers(struct context *context){
 }
 
 func void free_emit_location(struct context *context, struct emit_location *loc){
-    if(loc == context->register_bp) return;
+    if(loc == context->register_bp || loc == context->register_frame) return;
     assert(loc->state != EMIT_LOCATION_freed); // no double frees
     if(loc->prevent_freeing || loc->prevent_spilling) return;
     
@@ -1531,7 +1537,7 @@ func struct emit_location *emit_location_register_relative_copy(struct context *
     struct emit_location *base  = source->base;
     struct emit_location *index = source->index;
     
-    if(base != context->register_bp){
+    if(base != context->register_bp && base != context->register_frame){
         enum register_encoding new_base = allocate_register(context, REGISTER_KIND_gpr);
         emit_location_prevent_freeing(context, base);
         struct emit_location *loaded = emit_load_into_specific_gpr(context, base, new_base);
@@ -2302,10 +2308,10 @@ struct emit_location *get_emit_location_for_declaration(struct context *context,
             // it is actually a pointer to the declaration, not the declaration itself.
             // we emit '[[stack_location]]' here. (register relative to register relative
             
-            struct emit_location *stack_location = emit_location_stack_relative(context, decl->offset_on_stack, 8);
+            struct emit_location *stack_location = emit_location_declaration(context, decl->offset_on_stack, 8);
             ret = emit_location_register_relative(context, stack_location, 0, 0, decl_size);
         }else{
-            ret = emit_location_stack_relative(context, decl->offset_on_stack, decl_size);
+            ret = emit_location_declaration(context, decl->offset_on_stack, decl_size);
         }
     }
     
@@ -2698,7 +2704,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct ast_declaration *decl = compound_literal->decl;
                 struct ast_type *type = decl->type;
                 
-                struct emit_location *decl_location = emit_location_stack_relative(context, decl->offset_on_stack, type->size);
+                struct emit_location *decl_location = emit_location_declaration(context, decl->offset_on_stack, type->size);
                 if(type->kind == AST_struct || type->kind == AST_union || type->kind == AST_array_type){
                     emit_memset(context, decl_location, 0);
                 }
@@ -2723,7 +2729,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 u64 offset = initializer->offset;
                 struct ast_type *lhs_type = initializer->lhs_type;
                 
-                struct emit_location *dest = emit_location_stack_relative(context, 0, lhs_type->size);
+                struct emit_location *dest = emit_location_declaration(context, 0, lhs_type->size);
                 dest->offset = decl_location->offset + offset; // @cleanup: my system is way to confusing about stack offsets
                 
                 if(lhs_type->kind == AST_array_type){
@@ -4747,6 +4753,11 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     context->gpr_allocator.emit_location_map[REGISTER_SP] = null;
     context->register_bp = emit_location_loaded(context, REGISTER_KIND_gpr, REGISTER_BP, 8);
     context->gpr_allocator.emit_location_map[REGISTER_BP] = null;
+    context->register_frame = context->register_bp;
+    if(function->type->flags & FUNCTION_TYPE_FLAGS_is_seh_filter){
+        context->register_frame = emit_location_loaded(context, REGISTER_KIND_gpr, REGISTER_R14, 8);
+        context->gpr_allocator.emit_location_map[REGISTER_R14] = null;
+    }
     
     
     // :stack_space_needed. The amount of stack space needed needs to be aligned to 16.
@@ -4790,9 +4801,10 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     // @WARNING: If you change this code you have to also change the implementation of `_AddressOfReturnAddress`.
     
     if(function->type->flags & FUNCTION_TYPE_FLAGS_is_seh_filter){
+        emit(0x41); emit(0x56); // push r14
         emit(0x41); emit(0x55); // push r13
         emit(0x41); emit(0x54); // push r12
-        function->pushed_register_mask |= (1 << REGISTER_R12) | (1 << REGISTER_R13);
+        function->pushed_register_mask |= (1 << REGISTER_R12) | (1 << REGISTER_R13) | (1 << REGISTER_R14);
     }
     
     emit(PUSH_REGISTER_DI);
@@ -4805,9 +4817,11 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     emit_reg_reg__(context, REXW, MOVE_REG_REGM, REGISTER_BP, REGISTER_SP);
     
     if(function->type->flags & FUNCTION_TYPE_FLAGS_is_seh_filter){
-        // mov r13, rdx
-        // mov r12, [rdx]
+        // mov r14, rdx     (the frame of the function containing the filter)
+        // mov r13, rcx
+        // mov r12, [rcx]
         // mov r12d, [r12]
+        emit(0x49); emit(0x89); emit(0xd6);
         emit(0x49); emit(0x89); emit(0xcd);
         emit(0x4c); emit(0x8b); emit(0x21);
         emit(0x45); emit(0x8b); emit(0x24); emit(0x24);
@@ -4964,8 +4978,9 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     emit(POP_REGISTER_DI);
     
     if(function->type->flags & FUNCTION_TYPE_FLAGS_is_seh_filter){
-        emit(0x41); emit(0x5c); // push r12
-        emit(0x41); emit(0x5d); // push r13
+        emit(0x41); emit(0x5c); // pop r12
+        emit(0x41); emit(0x5d); // pop r13
+        emit(0x41); emit(0x5e); // pop r14
     }
     
     emit(NEAR_RET_INSTRUCTION);
diff --git a/src/main.c b/src/main.c
index 7264901..5242e0b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -882,6 +882,7 @@ struct context{
     
     struct emit_location *register_sp;
     struct emit_location *register_bp;
+    struct emit_location *register_frame; // The register the declarations on the stack are relative to.
     
     struct jump_context *break_jump_context;
     struct jump_context *continue_jump_context;
-- 
2.43.0


From c1b1dc32e18111ce5af5099c9a635d2845279589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 084/132] fix: unwind information of functions with more than
 512K of locals

---
 src/obj_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 816caf8..45cad39 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -943,7 +943,9 @@ func void *push_unwind_information_for_function(struct memory_arena *arena, stru
         
         stack_allocation_code->operation_code = /*UWOP_ALLOC_LARGE*/1;
         stack_allocation_code->operation_info = 1;
-        *push_struct(arena, u32) = (u32)stack_space_needed;
+        // @note: The slots are only two-byte aligned.
+        *push_struct(arena, u16) = (u16)(stack_space_needed >> 0);
+        *push_struct(arena, u16) = (u16)(stack_space_needed >> 16);
     }
     
     // @incomplete: Pushing r8-r15 needs 2 bytes each.
-- 
2.43.0


From d0568f75ad20e9c8ae43ac54554a327fe6d405a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 085/132] fix: local functions and exception filters were
 missing from object files

---
 src/coff_writer.c |  5 ++++-
 src/obj_writer.c  | 26 ++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 5220c48..da0c793 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -714,13 +714,16 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         for(struct ast_list_node *local_function_node = thread_context->local_functions.first; local_function_node; local_function_node = local_function_node->next){
             struct ast_function *function = (struct ast_function *)local_function_node->value;
             
+            if(!(function->as_decl.flags & DECLARATION_FLAGS_is_reachable_from_entry)) continue;
             if(function->type->flags & FUNCTION_TYPE_FLAGS_is_inline_asm) continue;
             
             ast_list_append(&defined_functions, scratch, &function->kind);
             
             for_ast_list(function->static_variables){
                 struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
-                if(decl->assign_expr){
+                if(decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    ast_list_append(&tls_declarations, scratch, &decl->kind);
+                }else if(decl->assign_expr){
                     ast_list_append(&initialized_declarations, scratch, &decl->kind);
                 }else{
                     ast_list_append(&uninitialized_declarations, scratch, &decl->kind);
diff --git a/src/obj_writer.c b/src/obj_writer.c
index 45cad39..3922761 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1321,6 +1321,32 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         global_struct_and_array_literals.count += thread_context->global_struct_and_array_literals.count;
     }
     
+    // 
+    // Add local functions and exception filters, these are by definition defined.
+    // 
+    for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
+        struct context *thread_context = globals.thread_infos[thread_index].context;
+        
+        for_ast_list(thread_context->local_functions){
+            struct ast_function *function = (struct ast_function *)it->value;
+            
+            if(!(function->as_decl.flags & DECLARATION_FLAGS_is_reachable_from_entry)) continue;
+            if(function->type->flags & FUNCTION_TYPE_FLAGS_is_inline_asm) continue;
+            
+            function->as_decl.flags |= DECLARATION_FLAGS_is_static;
+            ast_list_append(&defined_functions, scratch, &function->kind);
+            
+            for_ast_list(function->static_variables){
+                struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
+                if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    ast_list_append(&tls_variables, scratch, &static_decl->kind);
+                }else{
+                    ast_list_append(&defined_variables, scratch, &static_decl->kind);
+                }
+            }
+        }
+    }
+    
     for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
         struct context *thread_context = globals.thread_infos[thread_index].context;
         
-- 
2.43.0


From 5382a3ba0e5735f94fd03486b44b8edfa33f47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 086/132] fix: unwind information in object files

---
 src/obj_writer.c | 79 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 78 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 3922761..1741502 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2483,6 +2483,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     
     struct string_list long_name_strings = zero_struct;
     smm coff_string_table_at = 4;
+    smm amount_of_unwind_relocations = 0;
     
     {
         // 
@@ -2536,10 +2537,18 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             // 
             // Advance the offset to the next unwind info.
             // 
-            u8 *unwind_data = obj_base_address + xdata->pointer_to_raw_data;
+            u8 *unwind_data = obj_base_address + xdata->pointer_to_raw_data + unwind_info_offset;
             u8 count_of_codes = unwind_data[2];
             unwind_info_offset += 4 + (count_of_codes + (count_of_codes & 1)) * 2;
             
+            if(function->seh_exception_handler){
+                // The address of the handler, the amount of scope records and then the scope records.
+                u32 amount_of_scope_records = *(u32 *)(obj_base_address + xdata->pointer_to_raw_data + unwind_info_offset + 4);
+                unwind_info_offset += 8 + 16 * amount_of_scope_records;
+                
+                amount_of_unwind_relocations += 1 + 4 * amount_of_scope_records;
+            }
+            
             struct coff_symbol_table_record *pdata_record = (struct coff_symbol_table_record *)push_data(arena, u8, 18);
             
             struct string pdata_string = push_format_string(scratch, "$pdata$%.*s", name.size, name.data);
@@ -3194,6 +3203,74 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
     }
     
+    if(amount_of_unwind_relocations){
+        // .xdata relocations:
+        // 
+        // The exception handler and everything in the scope records are virtual addresses.
+        // 
+        xdata->pointer_to_relocations = (u32)(arena_current(arena) - obj_base_address);
+        
+        if(amount_of_unwind_relocations <= 0xffff){
+            xdata->number_of_relocations = (u16)amount_of_unwind_relocations;
+        }else{
+            assert(amount_of_unwind_relocations < 0xffffffff);
+            
+            xdata->characteristics |= /*IMAGE_SCN_LNK_NRELOC_OVFL*/0x01000000;
+            xdata->number_of_relocations = 0xffff;
+            
+            // If the number of relocations is to big to fit in a u16, 
+            // the actual number of relocations is contained in the 
+            // VirtualAddress (destination_offset_in_section) field of the first relocation.
+            
+            struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+            relocation->relocation_type = 0; // The relocation is ignored.
+            relocation->destination_offset_in_section = (u32)(amount_of_unwind_relocations + 1);
+        }
+        
+        u8 *xdata_base = obj_base_address + xdata->pointer_to_raw_data;
+        u32 unwind_info_offset = 0;
+        
+        for_ast_list(defined_functions){
+            struct ast_function *function = (struct ast_function *)it->value;
+            
+            u8 count_of_codes = xdata_base[unwind_info_offset + 2];
+            unwind_info_offset += 4 + (count_of_codes + (count_of_codes & 1)) * 2;
+            
+            if(!function->seh_exception_handler) continue;
+            
+            struct ast_function *C_specific_handler = globals.C_specific_handler_declaration;
+            u32 is_reference_to_stub = (C_specific_handler->as_decl.flags & DECLARATION_FLAGS_need_dllimport_stub_function) != 0;
+            
+            struct coff_relocation *handler_relocation = (void *)push_data(arena, u8, 10);
+            handler_relocation->relocation_type = /*ADDR32NB*/3;
+            handler_relocation->destination_offset_in_section = unwind_info_offset;
+            handler_relocation->source_symbol_table_index     = (u32)C_specific_handler->symbol_table_index + is_reference_to_stub;
+            
+            // @note: The relocation is added to the value in the section.
+            *(u32 *)(xdata_base + unwind_info_offset) = 0;
+            unwind_info_offset += 8;
+            
+            for(struct seh_exception_handler *handler = function->seh_exception_handler; handler; handler = handler->next){
+                u32 *scope_record = (u32 *)(xdata_base + unwind_info_offset);
+                scope_record[0] = handler->start_offset_in_function;
+                scope_record[1] = handler->end_offset_in_function;
+                scope_record[2] = 0;
+                scope_record[3] = handler->end_offset_in_function;
+                
+                for(u32 index = 0; index < 4; index++){
+                    struct ast_function *source = (index == 2) ? handler->filter_function : function;
+                    
+                    struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+                    relocation->relocation_type = /*ADDR32NB*/3;
+                    relocation->destination_offset_in_section = unwind_info_offset + index * 4;
+                    relocation->source_symbol_table_index     = (u32)source->symbol_table_index;
+                }
+                
+                unwind_info_offset += 16;
+            }
+        }
+    }
+    
     if(amount_of_debug_symbols_relocations){
         smm amount_of_relocations = 2 * amount_of_debug_symbols_relocations;
         debug_symbols->pointer_to_relocations = (u32)(arena_current(arena) - obj_base_address);
-- 
2.43.0


From 217bc833efbc6bcea191679cdd4788772a51be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 087/132] fix: crash on calls of constant addresses

---
 src/emit_x64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index bb04a23..cb864bd 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3607,6 +3607,11 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                         function_location = function_location->base;
                     }
                     
+                    if(function_location->state == EMIT_LOCATION_immediate){
+                        // A call of a constant address: '((void (*)(void))0x1234)()'.
+                        function_location = emit_load_gpr(context, function_location);
+                    }
+                    
                     switch(function_location->state){
                         case EMIT_LOCATION_register_relative:{
                             emit_register_relative_extended(context, no_prefix(), one_byte_opcode(REG_EXTENDED_OPCODE_FF), FF_CALL_REGM, function_location);
-- 
2.43.0


From 4e1d5c374b66ca34d0d780a276fa25f6aa314561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 088/132] fix: exceptions in a call directly before a __try
 block were handled by it

---
 src/emit_x64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index cb864bd..3903368 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -4688,6 +4688,9 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct ir_exception_marker *marker = (struct ir_exception_marker *)ir;
                 ir_arena_at += sizeof(*marker);
                 
+                // If the '__try' directly follows a call, the return address of the call must not be inside the guarded block.
+                emit(ONE_BYTE_NOP);
+                
                 marker->handler->start_offset_in_function = (u32)get_bytes_emitted(context);
             }break;
             
-- 
2.43.0


From 7d0a7a9efba3f284ccbb6629dcc9d02b51b131af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 089/132] fix: wrong encoding of memory operands with base
 register r12 or r13

---
 src/emit_x64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 3903368..8a2cf43 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1189,8 +1189,8 @@ func void emit_register_relative__internal(struct context *context, struct prefi
             mod = MODRM_REGM32;
         }else if(loc->offset != 0){
             mod = MODRM_REGM8;
-        }else if(base == REGISTER_BP){
-            // We have to handle [rbp] as [rbp + 0] as 'base = RBP' and 'mod = MOD_REGM' means [rip + disp32].
+        }else if((base & 0x7) == REGISTER_BP){
+            // We have to handle [rbp] (and [r13]) as [rbp + 0] as 'base = RBP' and 'mod = MOD_REGM' means [rip + disp32].
             // @cleanup: is this even supposed to happen?
             mod = MODRM_REGM8;
         }
@@ -1206,7 +1206,7 @@ func void emit_register_relative__internal(struct context *context, struct prefi
         emit(make_modrm(mod, other_reg & 0x7, REGISTER_SIB_EXTENSION));
         emit(make_sib(log_size, index & 0x7, base & 0x7));
     }else{
-        if(base == REGISTER_SIB_EXTENSION){
+        if((base & 0x7) == REGISTER_SIB_EXTENSION){
             emit(make_modrm(mod, other_reg & 0x7, REGISTER_SIB_EXTENSION));
             emit(make_sib(mod, REGISTER_SP, base & 0x7));
         }else{
-- 
2.43.0


From 9e23b08a911f5925528f8a1117762b28a732f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:14 +0000
Subject: [PATCH 090/132] fix: _InterlockedOr/And/Xor returned the new value
 and _InterlockedDecrement the old value plus one

---
 implicit/include/intrinsic.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index f0c14a1..c74304a 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -251,7 +251,7 @@ __declspec(inline_asm) __int8 _InterlockedDecrement8(__int8 *to_increment){
     lock xadd [to_increment], dl
     
     // increment dl such that we have the 'incremented_value'
-    inc dl
+    dec dl
     
     // save the value
     return dl
@@ -268,7 +268,7 @@ __declspec(inline_asm) __int16 _InterlockedDecrement16(__int16 *to_increment){
     lock xadd [to_increment], dx
     
     // increment dl such that we have the 'incremented_value'
-    inc dx
+    dec dx
     
     // save the value
     return dx
@@ -286,7 +286,7 @@ __declspec(inline_asm) __int32 _InterlockedDecrement(__int32 *to_increment){
     lock xadd [to_increment], edx
     
     // increment dl such that we have the 'incremented_value'
-    inc edx
+    dec edx
     
     // save the value
     return edx
@@ -304,7 +304,7 @@ __declspec(inline_asm) __int64 _InterlockedDecrement64(__int64 *to_increment){
     lock xadd [to_increment], rdx
     
     // increment dl such that we have the 'incremented_value'
-    inc rdx
+    dec rdx
     
     // save the value
     return rdx
@@ -873,7 +873,7 @@ __declspec(inline_asm) char _InterlockedOr8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedOr16(short volatile *value, short mask){
@@ -887,7 +887,7 @@ __declspec(inline_asm) short _InterlockedOr16(short volatile *value, short mask)
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedOr(long volatile *value, long mask){
@@ -901,7 +901,7 @@ __declspec(inline_asm) long _InterlockedOr(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -916,7 +916,7 @@ __declspec(inline_asm) __int64 _InterlockedOr64(__int64 volatile *value, __int64
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 __declspec(inline_asm) char _InterlockedXor8(char volatile *value, char mask){
@@ -930,7 +930,7 @@ __declspec(inline_asm) char _InterlockedXor8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedXor16(short volatile *value, short mask){
@@ -944,7 +944,7 @@ __declspec(inline_asm) short _InterlockedXor16(short volatile *value, short mask
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedXor(long volatile *value, long mask){
@@ -958,7 +958,7 @@ __declspec(inline_asm) long _InterlockedXor(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -973,7 +973,7 @@ __declspec(inline_asm) __int64 _InterlockedXor64(__int64 volatile *value, __int6
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 
@@ -988,7 +988,7 @@ __declspec(inline_asm) char _InterlockedAnd8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedAnd16(short volatile *value, short mask){
@@ -1002,7 +1002,7 @@ __declspec(inline_asm) short _InterlockedAnd16(short volatile *value, short mask
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedAnd(long volatile *value, long mask){
@@ -1016,7 +1016,7 @@ __declspec(inline_asm) long _InterlockedAnd(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -1031,7 +1031,7 @@ __declspec(inline_asm) __int64 _InterlockedAnd64(__int64 volatile *value, __int6
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 
-- 
2.43.0


From bd368ea1b3495470768aa73b7ad6d921dec807cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:14 +0000
Subject: [PATCH 091/132] fix: atomic_exchange was rejected for atomic_bool

---
 implicit/include/stdatomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/include/stdatomic.h b/implicit/include/stdatomic.h
index 0b2062f..de160b1 100644
--- a/implicit/include/stdatomic.h
+++ b/implicit/include/stdatomic.h
@@ -51,7 +51,7 @@
 // void atomic_exchange(volatile atomic_type *object, non_atomic_type value);
 // void atomic_exchange_explicit(volatile atomic_type *object, non_atomic_type value, memory_order order);
 #define atomic_exchange(object, value) _Generic((object), \
-        atomic_char*:    __atomic_exchange_bool,          \
+        atomic_bool*:    __atomic_exchange_bool,          \
                                                           \
         atomic_char*:    __atomic_exchange_char,          \
         atomic_short*:   __atomic_exchange_short,         \
-- 
2.43.0


From 8326585e35939ddfe8dc66b877ed02c9e3266ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:33 +0000
Subject: [PATCH 092/132] fix: increments, decrements and compound assignments
 of atomic objects were not atomic

---
 src/emit_x64.c |  99 ++++++++++++++++++++++++++++++++
 src/ir.h       |  10 ++++
 src/parse.c    | 149 ++++++++++++++++++++++++-------------------------
 3 files changed, 182 insertions(+), 76 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 8a2cf43..9935000 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1825,6 +1825,54 @@ func struct emit_location *emit_divide_or_mod_or_multiply__internal(struct conte
     }
 }
 
+// Performs '*lhs = (*lhs ^ rhs) != 0' for an atomic '_Bool'. Returns the old or the new value.
+func struct emit_location *emit_atomic_bool_xor(struct context *context, struct emit_location *lhs, struct emit_location *rhs, b32 return_old_value){
+    assert(lhs->state == EMIT_LOCATION_register_relative && lhs->size == 1);
+    
+    enum register_encoding rax = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_A);
+    struct emit_location *old_value = emit_location_loaded(context, REGISTER_KIND_gpr, rax, 1);
+    emit_location_prevent_spilling(context, old_value);
+    
+    rhs->size = 8;
+    rhs = emit_load_gpr(context, rhs);
+    emit_location_prevent_spilling(context, rhs);
+    emit_location_prevent_spilling(context, lhs);
+    
+    struct emit_location *new_value = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 1);
+    
+    // mov al, [lhs]
+    emit_register_relative_register(context, no_prefix(), one_byte_opcode(MOVE_REG8_REGM8), rax, lhs);
+    
+    // 
+    // loop:
+    //     movzx new, al
+    //     xor   new, rhs
+    //     setne new
+    //     lock cmpxchg [lhs], new
+    //     jne loop
+    // 
+    smm loop = get_bytes_emitted(context);
+    
+    new_value->size = old_value->size = 8;
+    emit_register_register(context, no_prefix(), two_byte_opcode(MOVE_WITH_ZERO_EXTENSION_REG_REGM8), new_value, old_value);
+    emit_register_register(context, no_prefix(), one_byte_opcode(XOR_REG_REGM), new_value, rhs);
+    new_value->size = old_value->size = 1;
+    emit_reg_extended_op(context, no_prefix(), two_byte_opcode(SET_REGM8_IF_UNEQUALS), 0, new_value);
+    emit_register_relative_register(context, create_prefixes(ASM_PREFIX_lock), two_byte_opcode(COMPARE_EXCHANGE_REG8_REGM8), new_value->loaded_register, lhs);
+    
+    emit(0x75);
+    emit(loop - (get_bytes_emitted(context) + 1));
+    
+    emit_location_allow_spilling(context, lhs);
+    emit_location_allow_spilling(context, rhs);
+    emit_location_allow_spilling(context, old_value);
+    free_emit_location(context, lhs);
+    free_emit_location(context, rhs);
+    free_emit_location(context, return_old_value ? new_value : old_value);
+    
+    return return_old_value ? old_value : new_value;
+}
+
 func struct emit_location *emit_compound_assignment__internal(struct context *context, struct prefixes prefixes, struct emit_location *lhs,
         struct emit_location *rhs, b32 is_signed, u8 reg_extension, u8 u8_code, u8 opcode){
     
@@ -3946,6 +3994,47 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 emit_location_stack[emit_location_stack_at-1] = conditional;
             }break;
             
+            case IR_atomic_increment:{
+                struct ir_atomic_increment *increment = (struct ir_atomic_increment *)ir;
+                ir_arena_at += sizeof(*increment);
+                
+                struct emit_location *loc = emit_location_stack[emit_location_stack_at-1];
+                assert(loc->state == EMIT_LOCATION_register_relative);
+                
+                if(increment->is_bool && increment->amount < 0){
+                    emit_location_stack[emit_location_stack_at-1] = emit_atomic_bool_xor(context, loc, emit_location_immediate(context, 1, 8), increment->is_postfix);
+                    break;
+                }
+                
+                emit_location_prevent_spilling(context, loc);
+                
+                u64 mask = (loc->size == 8) ? ~0ull : ((1ull << (8 * loc->size)) - 1);
+                struct emit_location *amount = emit_load_gpr(context, emit_location_immediate(context, (u64)increment->amount & mask, loc->size));
+                
+                if(increment->is_bool){
+                    // xchg [loc], amount
+                    emit_register_relative_register(context, no_prefix(), one_byte_opcode(EXCHANGE_REG8_REGM8), amount->loaded_register, loc);
+                }else{
+                    // lock xadd [loc], amount
+                    u8 inst = (loc->size == 1) ? 0xC0 : 0xC1;
+                    emit_register_relative_register(context, create_prefixes(ASM_PREFIX_lock), two_byte_opcode(inst), amount->loaded_register, loc);
+                }
+                
+                emit_location_allow_spilling(context, loc);
+                free_emit_location(context, loc);
+                
+                if(!increment->is_postfix && increment->is_bool){
+                    free_emit_location(context, amount);
+                    amount = emit_location_immediate(context, 1, 1);
+                }else if(!increment->is_postfix){
+                    // 'amount' now contains the old value, for a prefix operator we want the new one.
+                    struct emit_location *immediate = emit_location_immediate(context, (u64)increment->amount & mask, loc->size);
+                    amount = emit_binary_op__internal(context, no_prefix(), amount, immediate, amount->size, 0, REG_OPCODE_ADD, ADD_REG8_REGM8, ADD_REG_REGM);
+                }
+                
+                emit_location_stack[emit_location_stack_at-1] = amount;
+            }break;
+            
             case IR_postinc_bool:     case IR_postdec_bool:
             case IR_postinc_u8:       case IR_postdec_u8:
             case IR_postinc_u16:      case IR_postdec_u16:
@@ -4520,6 +4609,16 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
             }break;
             
             
+            case IR_xor_atomic_assignment_bool:{
+                ir_arena_at += sizeof(struct ir);
+                
+                struct emit_location *lhs = emit_location_stack[emit_location_stack_at - 2];
+                struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
+                emit_location_stack_at -= 1;
+                
+                emit_location_stack[emit_location_stack_at - 1] = emit_atomic_bool_xor(context, lhs, rhs, /*return_old_value*/0);
+            }break;
+            
             case IR_add_assignment_u8: case IR_add_assignment_u16: case IR_add_assignment_u32: case IR_add_assignment_u64:
             case IR_add_atomic_assignment_u8: case IR_add_atomic_assignment_u16: case IR_add_atomic_assignment_u32: case IR_add_atomic_assignment_u64:{
                 ir_arena_at += sizeof(struct ir);
diff --git a/src/ir.h b/src/ir.h
index ff51940..4b361b9 100644
--- a/src/ir.h
+++ b/src/ir.h
@@ -135,6 +135,9 @@ enum ir_kind{
     IR_predec_pointer,
     IR_predec_bitfield,
     
+    IR_atomic_increment,
+    IR_xor_atomic_assignment_bool,
+    
     IR_deref,
     IR_member,
     IR_member_deref,
@@ -541,6 +544,13 @@ struct ir_pointer_increment{
     struct ast_pointer_type *pointer_type;
 };
 
+struct ir_atomic_increment{
+    struct ir base;
+    b32 is_postfix;
+    b32 is_bool; // 'xchg' instead of 'xadd'.
+    s64 amount;
+};
+
 struct ir_bitfield_increment{
     struct ir base;
     struct ast_bitfield_type *bitfield_type;
diff --git a/src/parse.c b/src/parse.c
index c65c876..938df9a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3064,6 +3064,24 @@ switch(operation->type){                                                  \
 }
 
 
+// Handle '++' and '--' for atomic types. Returns false if the type is not atomic.
+func b32 maybe_push_atomic_increment(struct context *context, struct expr *operand, s64 amount, b32 is_postfix){
+    
+    struct ast_type *type = operand->resolved_type;
+    if(!(type->flags & TYPE_FLAG_is_atomic)) return false;
+    
+    if(type->kind == AST_pointer_type) amount *= ((struct ast_pointer_type *)type)->pointer_to->size;
+    
+    struct ir_atomic_increment *increment = push_uninitialized_struct(&context->ir_arena, struct ir_atomic_increment);
+    increment->base.kind = IR_atomic_increment;
+    increment->is_postfix = is_postfix;
+    increment->is_bool = type == &globals.typedef_atomic_bool;
+    increment->amount = amount;
+    
+    operand->ir = &increment->base;
+    return true;
+}
+
 func b32 check_types_for_increment_or_decrement(struct context *context, struct ast_type *type, struct token *site, char *token){
     
     // @cleanup: if we canonicalize pointers this could be globals.void_pointer
@@ -5097,11 +5115,9 @@ case NUMBER_KIND_##type:{ \
                 if(!check_unary_for_basic_types(context, operand.resolved_type, CHECK_basic, test)) return operand;
                 if(check_types_for_increment_or_decrement(context, operand.resolved_type, test, "++")) return operand;
                 
-                // 
-                // @cleanup: Atomic integer types.
-                // 
-                
-                if(operand.resolved_type->kind == AST_pointer_type){
+                if(maybe_push_atomic_increment(context, &operand, 1, /*is_postfix*/1)){
+                    // Handled above.
+                }else if(operand.resolved_type->kind == AST_pointer_type){
                     struct ir_pointer_increment *increment = push_uninitialized_struct(&context->ir_arena, struct ir_pointer_increment);
                     increment->base.kind = IR_postinc_pointer;
                     increment->pointer_type = (struct ast_pointer_type *)operand.resolved_type;
@@ -5133,21 +5149,6 @@ case NUMBER_KIND_##type:{ \
                         
                         [IR_TYPE_f32] = IR_postinc_f32,
                         [IR_TYPE_f64] = IR_postinc_f64,
-                        
-                        // @incomplete: There should probably be atomic versions of these.
-                        [IR_TYPE_atomic_bool] = IR_postinc_bool,
-                        
-                        [IR_TYPE_atomic_s8] = IR_postinc_u8,
-                        [IR_TYPE_atomic_u8] = IR_postinc_u8,
-                        
-                        [IR_TYPE_atomic_s16] = IR_postinc_u16,
-                        [IR_TYPE_atomic_u16] = IR_postinc_u16,
-                        
-                        [IR_TYPE_atomic_s32] = IR_postinc_u32,
-                        [IR_TYPE_atomic_u32] = IR_postinc_u32,
-                        
-                        [IR_TYPE_atomic_s64] = IR_postinc_u64,
-                        [IR_TYPE_atomic_u64] = IR_postinc_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -5159,7 +5160,9 @@ case NUMBER_KIND_##type:{ \
                 if(!check_unary_for_basic_types(context, operand.resolved_type, CHECK_basic, test)) return operand;
                 if(check_types_for_increment_or_decrement(context, operand.resolved_type, test, "--")) return operand;
                 
-                if(operand.resolved_type->kind == AST_pointer_type){
+                if(maybe_push_atomic_increment(context, &operand, -1, /*is_postfix*/1)){
+                    // Handled above.
+                }else if(operand.resolved_type->kind == AST_pointer_type){
                     struct ir_pointer_increment *increment = push_uninitialized_struct(&context->ir_arena, struct ir_pointer_increment);
                     increment->base.kind = IR_postdec_pointer;
                     increment->pointer_type = (struct ast_pointer_type *)operand.resolved_type;
@@ -5191,21 +5194,6 @@ case NUMBER_KIND_##type:{ \
                         
                         [IR_TYPE_f32] = IR_postdec_f32,
                         [IR_TYPE_f64] = IR_postdec_f64,
-                        
-                        // @incomplete: There should probably be atomic versions of these.
-                        [IR_TYPE_atomic_bool] = IR_postdec_bool,
-                        
-                        [IR_TYPE_atomic_s8] = IR_postdec_u8,
-                        [IR_TYPE_atomic_u8] = IR_postdec_u8,
-                        
-                        [IR_TYPE_atomic_s16] = IR_postdec_u16,
-                        [IR_TYPE_atomic_u16] = IR_postdec_u16,
-                        
-                        [IR_TYPE_atomic_s32] = IR_postdec_u32,
-                        [IR_TYPE_atomic_u32] = IR_postdec_u32,
-                        
-                        [IR_TYPE_atomic_s64] = IR_postdec_u64,
-                        [IR_TYPE_atomic_u64] = IR_postdec_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -5631,7 +5619,9 @@ case NUMBER_KIND_##type:{ \
                 if(!check_unary_for_basic_types(context, operand.resolved_type, CHECK_basic, stack_entry->token)) return operand;
                 if(check_types_for_increment_or_decrement(context, operand.resolved_type, stack_entry->token, "++")) return operand;
                 
-                if(operand.resolved_type->kind == AST_pointer_type){
+                if(maybe_push_atomic_increment(context, &operand, 1, /*is_postfix*/0)){
+                    // Handled above.
+                }else if(operand.resolved_type->kind == AST_pointer_type){
                     struct ir_pointer_increment *increment = push_uninitialized_struct(&context->ir_arena, struct ir_pointer_increment);
                     increment->base.kind = IR_preinc_pointer;
                     increment->pointer_type = (struct ast_pointer_type *)operand.resolved_type;
@@ -5663,21 +5653,6 @@ case NUMBER_KIND_##type:{ \
                         
                         [IR_TYPE_f32] = IR_preinc_f32,
                         [IR_TYPE_f64] = IR_preinc_f64,
-                        
-                        // @incomplete: There should probably be atomic versions of these.
-                        [IR_TYPE_atomic_bool] = IR_preinc_bool,
-                        
-                        [IR_TYPE_atomic_s8] = IR_preinc_u8,
-                        [IR_TYPE_atomic_u8] = IR_preinc_u8,
-                        
-                        [IR_TYPE_atomic_s16] = IR_preinc_u16,
-                        [IR_TYPE_atomic_u16] = IR_preinc_u16,
-                        
-                        [IR_TYPE_atomic_s32] = IR_preinc_u32,
-                        [IR_TYPE_atomic_u32] = IR_preinc_u32,
-                        
-                        [IR_TYPE_atomic_s64] = IR_preinc_u64,
-                        [IR_TYPE_atomic_u64] = IR_preinc_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -5690,7 +5665,9 @@ case NUMBER_KIND_##type:{ \
                 if(!check_unary_for_basic_types(context, operand.resolved_type, CHECK_basic, stack_entry->token)) return operand;
                 if(check_types_for_increment_or_decrement(context, operand.resolved_type, stack_entry->token, "--")) return operand;
                 
-                if(operand.resolved_type->kind == AST_pointer_type){
+                if(maybe_push_atomic_increment(context, &operand, -1, /*is_postfix*/0)){
+                    // Handled above.
+                }else if(operand.resolved_type->kind == AST_pointer_type){
                     struct ir_pointer_increment *increment = push_uninitialized_struct(&context->ir_arena, struct ir_pointer_increment);
                     increment->base.kind = IR_predec_pointer;
                     increment->pointer_type = (struct ast_pointer_type *)operand.resolved_type;
@@ -5722,21 +5699,6 @@ case NUMBER_KIND_##type:{ \
                         
                         [IR_TYPE_f32] = IR_predec_f32,
                         [IR_TYPE_f64] = IR_predec_f64,
-                        
-                        // @incomplete: There should probably be atomic versions of these.
-                        [IR_TYPE_atomic_bool] = IR_predec_bool,
-                        
-                        [IR_TYPE_atomic_s8] = IR_predec_u8,
-                        [IR_TYPE_atomic_u8] = IR_predec_u8,
-                        
-                        [IR_TYPE_atomic_s16] = IR_predec_u16,
-                        [IR_TYPE_atomic_u16] = IR_predec_u16,
-                        
-                        [IR_TYPE_atomic_s32] = IR_predec_u32,
-                        [IR_TYPE_atomic_u32] = IR_predec_u32,
-                        
-                        [IR_TYPE_atomic_s64] = IR_predec_u64,
-                        [IR_TYPE_atomic_u64] = IR_predec_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -7103,6 +7065,7 @@ case NUMBER_KIND_##type:{ \
                     }
                     
                     enum ir_kind ir_kind = ast_kind == AST_plus_assignment ? IR_add_assignment_u64 : IR_subtract_assignment_u64;
+                    if(lhs_type->flags & TYPE_FLAG_is_atomic) ir_kind = ast_kind == AST_plus_assignment ? IR_add_atomic_assignment_u64 : IR_subtract_atomic_assignment_u64;
                     handle_pointer_arithmetic(context, ir_kind, stack_entry->token, lhs, rhs, &operand, /*need_swap*/false);
                     context->in_lhs_expression = false; // Does not really matter they get scoped the other way.
                     break;
@@ -7133,6 +7096,11 @@ case NUMBER_KIND_##type:{ \
                     punt = true;
                 }
                 
+                if(lhs->resolved_type->kind == AST_atomic_integer_type && (lhs->resolved_type == &globals.typedef_atomic_bool || rhs->resolved_type->kind == AST_float_type)){
+                    report_error(context, stack_entry->token, "Atomic integer operation currently not supported.");
+                    return operand;
+                }
+                
                 if(lhs->resolved_type == &globals.typedef_Bool || lhs->resolved_type->kind == AST_bitfield_type) punt = 1;
                 
                 if(punt){
@@ -7166,6 +7134,11 @@ case NUMBER_KIND_##type:{ \
                 struct expr *rhs = &operand;
                 maybe_insert_cast_from_special_int_to_int(context, &operand, /*is_lhs*/0);
                 
+                if(lhs->resolved_type->kind == AST_atomic_integer_type){
+                    report_error(context, stack_entry->token, "Atomic integer operation currently not supported.");
+                    return operand;
+                }
+                
                 // Punt if the right hand side is bigger than the lhs, because we could have situation like
                 //     char a = 1; int b = 0x100; a %= b; 
                 // in which case 'b' cant be truncated to char, or it will crash.
@@ -7220,7 +7193,23 @@ case NUMBER_KIND_##type:{ \
                     punt_compound_assignment(context, lhs, rhs, stack_entry->token, ast_kind);
                 }else{
                     // These are always fine, we never have to punt.
-                    maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, lhs->resolved_type, lhs->defined_type, rhs, stack_entry->token);
+                    
+                    if(lhs->resolved_type == &globals.typedef_atomic_bool && ast_kind == AST_xor_assignment){
+                        // The right hand side must not be converted to '_Bool'.
+                        push_cast(context, AST_cast, &globals.typedef_s64, null, rhs);
+                        operand.ir = push_ir(context, IR_xor_atomic_assignment_bool);
+                        operand.resolved_type = &globals.typedef_Bool;
+                        operand.defined_type = lhs->defined_type;
+                        context->in_lhs_expression = false;
+                        break;
+                    }
+                    
+                    if(lhs->resolved_type == &globals.typedef_atomic_bool && ast_kind == AST_and_assignment){
+                        // Only the low bit of the right hand side matters, but it must not be converted to '_Bool'.
+                        push_cast(context, AST_cast, &globals.typedef_u8, null, rhs);
+                    }else{
+                        maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, lhs->resolved_type, lhs->defined_type, rhs, stack_entry->token);
+                    }
                     
                     struct ast_type *lhs_type = lhs->resolved_type;
                     if(lhs_type == &globals.typedef_atomic_bool) lhs_type = &globals.typedef_atomic_u8;
@@ -7230,7 +7219,7 @@ case NUMBER_KIND_##type:{ \
                     if(ast_kind == AST_or_assignment)  ir_base = IR_or_assignment_u8;
                     if(ast_kind == AST_xor_assignment) ir_base = IR_xor_assignment_u8;
                     
-                    enum ir_type ir_type = ir_type_from_type(lhs->resolved_type);
+                    enum ir_type ir_type = ir_type_from_type(lhs_type);
                     u32 type_index = (ir_type - IR_TYPE_s8) >> 1;
                     if(ir_type >= IR_TYPE_atomic_bool) type_index -= 3;
                     
@@ -7258,6 +7247,11 @@ case NUMBER_KIND_##type:{ \
                 struct ast_type *lhs_type = lhs->resolved_type;
                 struct ast_type *rhs_type = rhs->resolved_type;
                 
+                if(lhs->resolved_type->kind == AST_atomic_integer_type){
+                    report_error(context, stack_entry->token, "Atomic integer operation currently not supported.");
+                    return operand;
+                }
+                
                 int punt = false;
                 if(lhs_type->kind == AST_integer_type && rhs_type->kind == AST_float_type) punt = true;
                 
@@ -7299,11 +7293,6 @@ case NUMBER_KIND_##type:{ \
                 }else{
                     maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, lhs->resolved_type, lhs->defined_type, rhs, stack_entry->token);
                     
-                    if(lhs->resolved_type->kind == AST_atomic_integer_type){
-                        report_error(context, stack_entry->token, "Atomic integer operation currently not supported.");
-                        return operand;
-                    }
-                    
                     enum ir_kind ir_base = (ast_kind == AST_divide_assignment) ? IR_divide_assignment_s8 : IR_multiply_assignment_s8;
                     enum ir_type ir_type = ir_type_from_type(lhs->resolved_type);
                     operand.ir = push_ir(context, ir_base + ir_type - IR_TYPE_s8);
@@ -10086,7 +10075,15 @@ func struct declarator_return parse_declarator(struct context* context, struct a
             if(get_current_token(context) == begin) break;
         }
         
-        // @incomplete: If there are type qualifiers, we need to set them on the pointer somehow...
+        if(type_qualifiers & QUALIFIER_atomic){
+            // Atomic pointer type, copy the type as it might be shared.
+            struct ast_pointer_type *atomic_pointer = push_uninitialized_struct(context->arena, struct ast_pointer_type);
+            *atomic_pointer = *(struct ast_pointer_type *)ret.type;
+            atomic_pointer->base.flags |= TYPE_FLAG_is_atomic;
+            ret.type = &atomic_pointer->base;
+        }
+        
+        // @incomplete: If there are other type qualifiers, we need to set them on the pointer somehow...
     }
     
     while(true){ // @note: See above.
-- 
2.43.0


From 3cff380fec7a7a38f6ddab313ec4dd92e97e944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:42 +0000
Subject: [PATCH 093/132] fix: crash on _Atomic function results and casts to
 _Atomic types

---
 src/parse.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 938df9a..74c7067 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -6007,6 +6007,10 @@ case NUMBER_KIND_##type:{ \
                 struct ast_type *type_to_cast_to = stack_entry->other;
                 enum ast_kind *defined_type_to_cast_to = (enum ast_kind *)stack_entry->operand.ir;
                 
+                // :translate_atomic_to_non_atomic_and_back
+                // The value of a cast is not atomic.
+                if(type_to_cast_to->kind == AST_atomic_integer_type) type_to_cast_to -= (&globals.typedef_atomic_bool - &globals.typedef_Bool);
+                
                 // @cleanup: is this correct?
                 maybe_load_address_for_array_or_function(context, IR_load_address, &operand);
                 maybe_insert_cast_from_special_int_to_int(context, &operand, /*is_lhs*/0);
@@ -10433,6 +10437,10 @@ func struct declarator_return parse_declarator(struct context* context, struct a
                 return ret;
             }
             
+            // :translate_atomic_to_non_atomic_and_back
+            // The value of a function call is not atomic.
+            if(ret.type->kind == AST_atomic_integer_type) ret.type -= (&globals.typedef_atomic_bool - &globals.typedef_Bool);
+            
             function_type->return_type = ret.type;
             function_type->return_type_defined_type = ret.defined_type;
             
-- 
2.43.0


From 6544554e4c621eee9e9e3ec2e3bf8c046309a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 094/132] fix: 'rep movsd' lost its rep prefix

---
 src/parse_asm_block.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index a27817f..2aaa59d 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1731,7 +1731,9 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
             // In this case, just return the movsd here
             //
             
-            return push_asm_instruction(context, MEMONIC_movsd, 0, token);
+            struct asm_instruction *movsd = push_asm_instruction(context, MEMONIC_movsd, 0, token);
+            movsd->prefixes = context->current_asm_flags;
+            return movsd;
         }
     }
     
-- 
2.43.0


From b4303bd9696960ffa11436b0cd3603083a028cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 095/132] fix: wrong prefix for haddps

---
 src/emit_inline_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 836a395..b162d78 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -267,7 +267,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_divss] = ASM_PREFIX_SSE_float, [MEMONIC_divsd] = ASM_PREFIX_SSE_double, [MEMONIC_divps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_divpd] = ASM_PREFIX_SSE_packed_double,
                 [MEMONIC_mulss] = ASM_PREFIX_SSE_float, [MEMONIC_mulsd] = ASM_PREFIX_SSE_double, [MEMONIC_mulps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_mulpd] = ASM_PREFIX_SSE_packed_double,
                 
-                [MEMONIC_haddps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_haddpd] = ASM_PREFIX_SSE_packed_double,
+                [MEMONIC_haddps] = ASM_PREFIX_F2, [MEMONIC_haddpd] = ASM_PREFIX_SSE_packed_double,
                 
                 [MEMONIC_movmskps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_movmskpd] = ASM_PREFIX_SSE_packed_double,
                 
-- 
2.43.0


From bf5c4881c2340981d36b5cd9a0b01628be61fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 096/132] fix: wrong opcode map and prefix for vblendps

---
 src/emit_inline_asm_block.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index b162d78..c7a2d4d 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -323,7 +323,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_pshufb]  = ASM_PREFIX_66,
                 
                 [MEMONIC_vshufps]  = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
-                [MEMONIC_vblendps] = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
+                [MEMONIC_vblendps] = ASM_PREFIX_VEX | ASM_PREFIX_66,
                 [MEMONIC_vmulps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vaddps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vsubps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
@@ -482,7 +482,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_vpcmpeqb]    = 0x74,
                 [MEMONIC_vshufps]     = 0xc6,
                 
-                [MEMONIC_vblendps]    = 0x3A,
+                [MEMONIC_vblendps]    = 0x0C,
                 
                 [MEMONIC_vpshufb]     = 0x00,
                 [MEMONIC_vperm2f128]  = 0x06,
@@ -1296,6 +1296,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             case MEMONIC_vmulps: case MEMONIC_vaddps: case MEMONIC_vsubps:{
                 struct prefixes prefix = create_prefixes(memonic_to_prefix[inst->memonic]);
                 struct opcode opcode = two_byte_opcode(memonic_to_opcode[inst->memonic]);
+                if(inst->memonic == MEMONIC_vblendps) opcode = three_byte_opcode(0x3A, memonic_to_opcode[inst->memonic]);
                 
                 // VEX.128.0F.WIG 58 /r VADDPS xmm1, xmm2, xmm3/m128
                 // VEX.256.0F.WIG 58 /r VADDPS ymm1, ymm2, ymm3/m256
-- 
2.43.0


From 175f07bbb2a570053a961228232fd0c624f61b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 097/132] fix: mov, movzx and movsx dropped the gs: override of
 a memory operand

---
 src/emit_inline_asm_block.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index c7a2d4d..f66a576 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -544,12 +544,21 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                         emit_register_register(context, no_prefix(), one_byte_opcode(x64_opcode), lhs, rhs);
                     }else{
                         enum x64_OPCODE x64_opcode = (lhs->size == 1) ? MOVE_REG8_REGM8 : MOVE_REG_REGM;
-                        emit_register_relative_register(context, no_prefix(), one_byte_opcode(x64_opcode), lhs->loaded_register, rhs);
+                        emit_register_relative_register(context, user_prefixes, one_byte_opcode(x64_opcode), lhs->loaded_register, rhs);
                     }
                 }else{
                     assert(lhs->state == EMIT_LOCATION_register_relative);
                     if(rhs->state == EMIT_LOCATION_immediate) rhs->size = lhs->size; // @clenaup: This was not true. I dunno, this whole stuff should be redone.
-                    emit_store(context, lhs, rhs);
+                    
+                    if(inst->prefixes){
+                        // @note: 'emit_store' does not know about prefixes like 'gs:'.
+                        enum x64_OPCODE x64_opcode = (lhs->size == 1) ? MOVE_REGM8_REG8 : MOVE_REGM_REG;
+                        struct emit_location *loaded = emit_load_gpr(context, rhs);
+                        emit_register_relative_register(context, user_prefixes, one_byte_opcode(x64_opcode), loaded->loaded_register, lhs);
+                        if(loaded != rhs) free_emit_location(context, loaded);
+                    }else{
+                        emit_store(context, lhs, rhs);
+                    }
                 }
             }break;
             
@@ -563,9 +572,9 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 rhs->size = loaded->size;
                 
                 if(rhs->state == EMIT_LOCATION_loaded){
-                    emit_register_register(context, no_prefix(), opcode, loaded, rhs);
+                    emit_register_register(context, user_prefixes, opcode, loaded, rhs);
                 }else{
-                    emit_register_relative_register(context, no_prefix(), opcode, loaded->loaded_register, rhs);
+                    emit_register_relative_register(context, user_prefixes, opcode, loaded->loaded_register, rhs);
                 }
                 
                 if(loaded != lhs) emit_store(context, lhs, loaded);
-- 
2.43.0


From 8f88677bc5f41df1375493dc82b28a50e26a25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 098/132] fix: ldmxcsr and stmxcsr were not emitted

---
 src/emit_inline_asm_block.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index f66a576..cb99fdd 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -647,6 +647,11 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 emit_register_relative_extended(context, no_prefix(), two_byte_opcode(0xae), 7, operand);
             }break;
             
+            case MEMONIC_ldmxcsr: case MEMONIC_stmxcsr:{
+                assert(operand->state == EMIT_LOCATION_register_relative);
+                emit_register_relative_extended(context, no_prefix(), two_byte_opcode(0xae), (inst->memonic == MEMONIC_ldmxcsr) ? 2 : 3, operand);
+            }break;
+            
             case MEMONIC_rdtsc:{
                 asm_block_load_registers_which_was_used_by_user(context, REGISTER_KIND_gpr, REGISTER_A, 8);
                 asm_block_load_registers_which_was_used_by_user(context, REGISTER_KIND_gpr, REGISTER_D, 8);
-- 
2.43.0


From 7f0a3606025946ec702241b3a21c8b25a2ff57e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 099/132] fix: 'movq xmm, r64' moved only 32 bits

---
 src/emit_inline_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index cb99fdd..ec48606 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1282,7 +1282,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                     if(rhs->state == EMIT_LOCATION_register_relative){
                         emit_register_relative_register(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs);
                     }else{
-                        emit_register_op__internal(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs->loaded_register, lhs->size);
+                        emit_register_op__internal(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs->loaded_register, rhs->size);
                     }
                     
                     if(loaded != lhs) emit_store(context, lhs, loaded);
-- 
2.43.0


From 0e41e8a00ec33cdedba82f8eb2dcf4eb8b7fb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 100/132] fix: _mm_cmpge/gt/nge/ngt intrinsics gave the wrong
 result for NaN operands

---
 implicit/include/intrinsic.c | 56 ++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index c74304a..211209e 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -1334,21 +1334,23 @@ __declspec(inline_asm) __m128 _mm_cmpeq_ss(__m128 a, __m128 b){
 
 
 __declspec(inline_asm) __m128 _mm_cmpge_ps(__m128 a, __m128 b){
-    cmpgeps a, b
-    return a
+    cmpleps b, a
+    return b
 }
 __declspec(inline_asm) __m128 _mm_cmpge_ss(__m128 a, __m128 b){
-    cmpgess a, b
+    cmpless b, a
+    movss a, b
     return a
 }
 
 
 __declspec(inline_asm) __m128 _mm_cmpgt_ps(__m128 a, __m128 b){
-    cmpgtps a, b
-    return a
+    cmpltps b, a
+    return b
 }
 __declspec(inline_asm) __m128 _mm_cmpgt_ss(__m128 a, __m128 b){
-    cmpgtss a, b
+    cmpltss b, a
+    movss a, b
     return a
 }
 
@@ -1384,21 +1386,23 @@ __declspec(inline_asm) __m128 _mm_cmpneq_ss(__m128 a, __m128 b){
 
 
 __declspec(inline_asm) __m128 _mm_cmpnge_ps(__m128 a, __m128 b){
-    cmpngeps a, b
-    return a
+    cmpnleps b, a
+    return b
 }
 __declspec(inline_asm) __m128 _mm_cmpnge_ss(__m128 a, __m128 b){
-    cmpngess a, b
+    cmpnless b, a
+    movss a, b
     return a
 }
 
 
 __declspec(inline_asm) __m128 _mm_cmpngt_ps(__m128 a, __m128 b){
-    cmpngtps a, b
-    return a
+    cmpnltps b, a
+    return b
 }
 __declspec(inline_asm) __m128 _mm_cmpngt_ss(__m128 a, __m128 b){
-    cmpngtss a, b
+    cmpnltss b, a
+    movss a, b
     return a
 }
 
@@ -2003,12 +2007,13 @@ __declspec(inline_asm) __m128d _mm_cmpeq_sd(__m128d a, __m128d b){
 }
 
 __declspec(inline_asm) __m128d _mm_cmpge_pd(__m128d a, __m128d b){
-    cmpgepd a, b
-    return a
+    cmplepd b, a
+    return b
 }
 
 __declspec(inline_asm) __m128d _mm_cmpge_sd(__m128d a, __m128d b){
-    cmpgesd a, b
+    cmplesd b, a
+    movsd a, b
     return a
 }
 
@@ -2029,12 +2034,13 @@ __declspec(inline_asm) __m128i _mm_cmpgt_epi32(__m128i a, __m128i b){
 }
 
 __declspec(inline_asm) __m128d _mm_cmpgt_pd(__m128d a, __m128d b){
-    cmpgtpd a, b
-    return a
+    cmpltpd b, a
+    return b
 }
 
 __declspec(inline_asm) __m128d _mm_cmpgt_sd(__m128d a, __m128d b){
-    cmpgtsd a, b
+    cmpltsd b, a
+    movsd a, b
     return a
 }
 
@@ -2084,23 +2090,25 @@ __declspec(inline_asm) __m128d _mm_cmpneq_sd(__m128d a, __m128d b){
 }
 
 __declspec(inline_asm) __m128d _mm_cmpnge_pd(__m128d a, __m128d b){
-    cmpngepd a, b
-    return a
+    cmpnlepd b, a
+    return b
 }
 
 
 __declspec(inline_asm) __m128d _mm_cmpnge_sd(__m128d a, __m128d b){
-    cmpngesd a, b
+    cmpnlesd b, a
+    movsd a, b
     return a
 }
 
 __declspec(inline_asm) __m128d _mm_cmpngt_pd(__m128d a, __m128d b){
-    cmpngtpd a, b
-    return a
+    cmpnltpd b, a
+    return b
 }
 
 __declspec(inline_asm) __m128d _mm_cmpngt_sd(__m128d a, __m128d b){
-    cmpngtsd a, b
+    cmpnltsd b, a
+    movsd a, b
     return a
 }
 
-- 
2.43.0


From 953742d3a9e1a1dc994b4d6853b4b0adcd0f032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 101/132] fix: _mm_ucomieq_ss/_mm_ucomineq_ss read xmm0 instead
 of their operand

---
 implicit/include/intrinsic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 211209e..2e6310d 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -1795,7 +1795,7 @@ __declspec(inline_asm) __m128 _mm_sub_ss(__m128 a, __m128 b){
 __declspec(inline_asm) int _mm_ucomieq_ss(__m128 a, __m128 b){
     cmpeqss a, b
     
-    movd eax, xmm0
+    movd eax, a
     and  eax, 1
     return eax
 }
@@ -1834,7 +1834,7 @@ __declspec(inline_asm) int _mm_ucomilt_ss(__m128 a, __m128 b){
 __declspec(inline_asm) int _mm_ucomineq_ss(__m128 a, __m128 b){
     cmpneqss a, b
     
-    movd eax, xmm0
+    movd eax, a
     and eax, 1
     return eax
 }
-- 
2.43.0


From 6f6aeaac8ac953ddb66dae489c12a333f6108dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 102/132] fix: parameters of _mm_ucomile_ss were swapped

---
 implicit/include/intrinsic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 2e6310d..caad21f 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -1814,7 +1814,7 @@ __declspec(inline_asm) int _mm_ucomigt_ss(__m128 a, __m128 b){
     
     return eax
 }
-__declspec(inline_asm) int _mm_ucomile_ss(__m128 b, __m128 a){
+__declspec(inline_asm) int _mm_ucomile_ss(__m128 a, __m128 b){
     ucomiss b, a
     
     setae al
-- 
2.43.0


From 8497317a10f50319cfb6b9c661c47d84d9ec9d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 103/132] fix: _mm_load_pd1 did not duplicate the loaded value

---
 implicit/include/intrinsic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index caad21f..b871d85 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -2369,6 +2369,7 @@ __declspec(inline_asm) __m128d _mm_load_pd(double const* mem_addr){
 
 __declspec(inline_asm) __m128d _mm_load_pd1(double const* mem_addr){
     movsd xmm0, qword ptr [mem_addr]
+    shufpd xmm0, xmm0, 0
     return xmm0
 }
 
-- 
2.43.0


From 6cc90b7770d4b16a4ab08de7dce0329f670866b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 104/132] fix: _mm_loadr_pd used an uninitialised register

---
 implicit/include/intrinsic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index b871d85..6ce8659 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -2417,7 +2417,8 @@ __declspec(inline_asm) __m128 _mm_loadl_pi(__m128 a, __m64 const* mem_addr){
 }
 
 __declspec(inline_asm) __m128d _mm_loadr_pd(double const* mem_addr){
-    shufpd xmm0, xmmword ptr [mem_addr], 1
+    movups xmm0, xmmword ptr [mem_addr]
+    shufpd xmm0, xmm0, 1
     return xmm0
 }
 
-- 
2.43.0


From 8a83ecf6ed1613314e4edc3650d792232dd2c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 105/132] fix: _mm_store_pd1 duplicated the wrong half

---
 implicit/include/intrinsic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 6ce8659..6e73db6 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -2936,7 +2936,7 @@ __declspec(inline_asm) void _mm_store_pd(double *mem_addr, __m128d a){
 
 
 __declspec(inline_asm) void _mm_store_pd1(double* mem_addr, __m128d a){
-    shufps a, a, 0
+    shufpd a, a, 0
     movups xmmword ptr[mem_addr], a
 }
 
-- 
2.43.0


From 330b4e4fdbb297442ce7852c9487c40ff34060de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 106/132] fix: _mm_cmpestrc compared with swapped lengths

---
 implicit/include/intrinsic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 6e73db6..8d8ad09 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -3298,7 +3298,7 @@ __declspec(inline_asm) int _mm_cmpestrc(__m128i a, int la, __m128i b, int lb, co
     // "Perform a packed comparison of string data with explicit lengths,
     //  generating an index, and storing the result in ECX."
     // "CFlag - Reset if IntRes2 is equal to zero, set otherwise."
-    pcmpestri xmm1, xmm0, imm8
+    pcmpestri xmm0, xmm1, imm8
     
     // "returns 1 if the resulting mask was non-zero, and 0 otherwise."
     mov     eax, 0
-- 
2.43.0


From e8a646bfb9505c680285e7d37234111b6b10fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 107/132] fix: crash on a member of a structure assignment or
 printing one, when the structure is held in a register

---
 src/emit_x64.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 9935000..217713e 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3331,6 +3331,9 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 ir_arena_at += sizeof(*dot);
                 
                 struct emit_location *loc = emit_location_stack[emit_location_stack_at-1];
+                
+                // @note: Small structures are in a register, e.g. after an assignment.
+                if(loc->state == EMIT_LOCATION_loaded) spill_register(context, loc->register_kind, loc->loaded_register);
                 assert(loc->state == EMIT_LOCATION_register_relative);
                 
                 loc->size    = dot->member->type->size;
@@ -4760,6 +4763,9 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 
                 struct emit_location *top = emit_location_stack[emit_location_stack_at-1];
                 
+                // @note: Small structures are in a register, e.g. after an assignment.
+                if(top->state == EMIT_LOCATION_loaded) spill_register(context, top->register_kind, top->loaded_register);
+                
                 struct emit_location *copy = emit_location_register_relative_copy(context, top);
                 
                 emit_location_stack_at += 1;
-- 
2.43.0


From 17558dfa211554c7b07d8fdb4ddfdaeff8ed4054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 108/132] fix: width and precision arguments of a printlike
 pointer argument were printed instead of the pointer

---
 src/parse.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 74c7067..7195fdf 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3181,12 +3181,11 @@ func void get_pretty_print_string_for_type(struct context *context, struct strin
                 }
             }
             
-            struct string format_string = string("%p");
+            char *dot = precision.size ? "." : "";
+            char *type_specifier = is_string ? "s" : "p";
             
-            if(is_string){
-                char *dot = precision.size ? "." : "";
-                format_string = push_format_string(&context->scratch, "%%%.*s%s%.*ss", field_width.size, field_width.data, dot, precision.size, precision.data);
-            }
+            // @note: The field width and precision have to be part of the format string, as they might be '*' and have an argument.
+            struct string format_string = push_format_string(&context->scratch, "%%%.*s%s%.*s%s", field_width.size, field_width.data, dot, precision.size, precision.data, type_specifier);
             
             string_list_postfix(format_list, &context->scratch, format_string);
         }break;
-- 
2.43.0


From 3eaee41974612c953d9c81541d4e8066dcbcfd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 109/132] fix: crash on a void argument of a
 __declspec(printlike) function

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 7195fdf..0491b56 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3232,6 +3232,11 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
     
     struct ast_type *argument_type = argument->resolved_type;
     
+    if(argument_type == &globals.typedef_void){
+        report_error(context, argument->token, "An expression of type 'void' cannot be printed.");
+        return;
+    }
+    
     if(argument_type->kind == AST_array_type){
         // 
         // For print("{:s}", "hello"), we want to print "hello" not an array literal.
-- 
2.43.0


From 6b09a1acf0c630d2b7c42ed8134768212043acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 110/132] fix: printlike functions printed '<invalid
 identifier>' for anonymous members

---
 src/parse.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 0491b56..834a9a5 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3355,8 +3355,10 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
                     dot->base.kind = IR_member;
                     dot->member = &compound->members[node->member_at];
                     
-                    string_list_postfix_no_copy(pretty_print_list, &context->scratch, string("."));
-                    string_list_postfix_no_copy(pretty_print_list, &context->scratch, dot->member->name->string);
+                    if(dot->member->name != globals.invalid_identifier_token){ // Anonymous structures have no designator.
+                        string_list_postfix_no_copy(pretty_print_list, &context->scratch, string("."));
+                        string_list_postfix_no_copy(pretty_print_list, &context->scratch, dot->member->name->string);
+                    }
                     
                     ir = &dot->base;
                     
-- 
2.43.0


From c6d0469377bfe43333f5dc9a290c76ba50931b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 111/132] fix: __asm__ operands which are members or array
 elements used the size of the whole variable

---
 src/emit_inline_asm_block.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index ec48606..b0753aa 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -148,7 +148,8 @@ func struct emit_location *_asm_block_resolve_and_allocate_operand(struct contex
                 smm bytes_emitted_for_assert = get_bytes_emitted(context);
                 ret = get_emit_location_for_declaration(context, decl);
                 ret->offset += operand->declaration_offset;
-                assert(bytes_emitted_for_assert == get_bytes_emitted(context));
+                if(operand->kind == ASM_ARG_declaration_reference) ret->size = operand->size; // The operand might be a member or an array element.
+                assert((decl->flags & DECLARATION_FLAGS_is_thread_local) || bytes_emitted_for_assert == get_bytes_emitted(context));
                 assert(ret->state == EMIT_LOCATION_register_relative);
             }
             
-- 
2.43.0


From 7e12fc6f32cae3936d7d3590a49262d01b8e2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 112/132] fix: bt, bts, btr and btc with an immediate were
 encoded without it and dropped the lock prefix

---
 src/emit_inline_asm_block.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index b0753aa..0b0fc40 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -877,18 +877,20 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 
                 if(rhs->state == EMIT_LOCATION_immediate){
                     if(lhs->state == EMIT_LOCATION_loaded){
-                        emit_reg_extended_op(context, no_prefix(), two_byte_opcode(0xBA), REG_OPCODE, lhs);
+                        emit_reg_extended_op(context, user_prefixes, two_byte_opcode(0xBA), REG_OPCODE, lhs);
+                        emit((u8)rhs->value);
                     }else{
                         assert(lhs->state == EMIT_LOCATION_register_relative);
-                        emit_register_relative_extended(context, no_prefix(), two_byte_opcode(0xBA), REG_OPCODE, lhs);
+                        rhs->size = 1;
+                        emit_register_relative_immediate(context, user_prefixes, two_byte_opcode(0xBA), REG_OPCODE, lhs, rhs);
                     }
                 }else{
                     struct emit_location *loaded = emit_load_gpr(context, rhs);
                     if(lhs->state == EMIT_LOCATION_loaded){
-                        emit_register_register(context, no_prefix(), two_byte_opcode(opcode), /*reg*/loaded, /*regm*/lhs);
+                        emit_register_register(context, user_prefixes, two_byte_opcode(opcode), /*reg*/loaded, /*regm*/lhs);
                     }else{
                         assert(lhs->state == EMIT_LOCATION_register_relative);
-                        emit_register_relative_register(context, no_prefix(), two_byte_opcode(opcode), /*reg*/loaded->loaded_register, /*regm*/lhs);
+                        emit_register_relative_register(context, user_prefixes, two_byte_opcode(opcode), /*reg*/loaded->loaded_register, /*regm*/lhs);
                     }
                     if(loaded != rhs) free_emit_location(context, loaded);
                 }
-- 
2.43.0


From abbf2c513cbd8fda5e56106c42f89ca4f7b7bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 113/132] fix: spl, bpl, sil and dil were encoded as ah, ch, dh
 and bh in __asm__ blocks

---
 src/emit_inline_asm_block.c | 10 ++++++++++
 src/emit_x64.c              |  1 +
 src/main.c                  |  1 +
 3 files changed, 12 insertions(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 0b0fc40..1c4bad7 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -225,6 +225,14 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             operands[operand_index] = _asm_block_resolve_and_allocate_operand(context, inst, operand_index);
         }
         
+        context->inline_asm_needs_rex = false;
+        for(smm operand_index = 0; operand_index < inst->amount_of_operands; operand_index++){
+            struct emit_location *loc = operands[operand_index];
+            if(loc->state == EMIT_LOCATION_loaded && loc->register_kind == REGISTER_KIND_gpr && loc->size == 1 && REGISTER_SP <= loc->loaded_register && loc->loaded_register <= REGISTER_DI){
+                context->inline_asm_needs_rex = true;
+            }
+        }
+        
         struct emit_location *operand = operands[0]; // one operand operations
         struct emit_location *lhs = operands[0]; // two operand operations
         struct emit_location *rhs = operands[1];
@@ -535,6 +543,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                         u8 rex = 0;
                         if(lhs->size == 8) rex |= REXW;
                         if(register_is_extended(lhs->loaded_register)) rex |= REXB;
+                        if(context->inline_asm_needs_rex) rex |= 0x40;
                         if(rex) emit(rex); // this decides wheter 32 or 64 bits in this case
                         
                         emit(x64_opcode + (lhs->loaded_register & 7));
@@ -1458,6 +1467,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
     }
     
     context->inline_asm_mode = null;
+    context->inline_asm_needs_rex = false;
     
     //
     // Free all registers that were used by the user.
diff --git a/src/emit_x64.c b/src/emit_x64.c
index 217713e..879e735 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -634,6 +634,7 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
         if(register_is_extended(reg))  rex |= REXR;
         if(register_is_extended(regm)) rex |= REXB;
         if(index >= 0 && register_is_extended(index)) rex |= REXX;
+        if(context->inline_asm_needs_rex) rex |= 0x40;
         if(rex) emit(rex);
         
         // emit the opcode
diff --git a/src/main.c b/src/main.c
index 5242e0b..639075b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -867,6 +867,7 @@ struct context{
     struct token *inline_asm_mode;
     struct ast_function *current_inline_asm_function;
     struct emit_location *asm_block_return;
+    b32 inline_asm_needs_rex; // The current instruction uses 'spl', 'bpl', 'sil' or 'dil', without a rex prefix these would be 'ah', 'ch', 'dh' and 'bh'.
     
     smm max_amount_of_function_call_arguments;
     smm temporary_stack_allocator;
-- 
2.43.0


From 033b0ad4bdee11772a97651fad2763350bc2cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 114/132] fix: 'op [mem], 0' in an __asm__ block destroyed the
 flags

---
 src/emit_inline_asm_block.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 1c4bad7..e5e1f02 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -560,7 +560,12 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                     assert(lhs->state == EMIT_LOCATION_register_relative);
                     if(rhs->state == EMIT_LOCATION_immediate) rhs->size = lhs->size; // @clenaup: This was not true. I dunno, this whole stuff should be redone.
                     
-                    if(inst->prefixes){
+                    if(rhs->state == EMIT_LOCATION_immediate && (lhs->size < 8 || (s32_min <= rhs->value && rhs->value <= s32_max))){
+                        // @note: 'emit_store' would load 8-byte immediates and loading 0 destroys the flags.
+                        if(rhs->size > 4) rhs->size = 4;
+                        enum x64_OPCODE x64_opcode = (lhs->size == 1) ? MOVE_REGM8_IMMEDIATE8 : MOVE_REGM_IMMEDIATE;
+                        emit_register_relative_immediate(context, user_prefixes, one_byte_opcode(x64_opcode), 0, lhs, rhs);
+                    }else if(inst->prefixes){
                         // @note: 'emit_store' does not know about prefixes like 'gs:'.
                         enum x64_OPCODE x64_opcode = (lhs->size == 1) ? MOVE_REGM8_REG8 : MOVE_REGM_REG;
                         struct emit_location *loaded = emit_load_gpr(context, rhs);
@@ -617,7 +622,11 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 u8 OP_REG8_REGM8 = opcode_base + 2;
                 u8 OP_REG_REGM   = opcode_base + 3;
                 
-                if(lhs->state == EMIT_LOCATION_register_relative){
+                if(lhs->state == EMIT_LOCATION_register_relative && rhs->state == EMIT_LOCATION_immediate && (lhs->size < 8 || (s32_min <= rhs->value && rhs->value <= s32_max))){
+                    // @note: We cannot load the immediate, as loading 0 destroys the flags (consider 'adc [rdi], 0').
+                    rhs->size = (lhs->size > 4) ? 4 : lhs->size;
+                    emit_register_relative_immediate(context, user_prefixes, one_byte_opcode((lhs->size == 1) ? REG_EXTENDED_OPCODE_REGM8_IMMIDIATE8 : REG_EXTENDED_OPCODE_REGM_IMMIDIATE), REG_OPCODE, lhs, rhs);
+                }else if(lhs->state == EMIT_LOCATION_register_relative){
                     struct emit_location *loaded = emit_load_gpr(context, rhs);
                     
                     loaded->prevent_freeing += 1;
-- 
2.43.0


From 123aa14bcf338313c372c0432417212d41dbbc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 115/132] fix: __asm__ instructions using one register with two
 sizes, encoding of crc32

---
 src/emit_inline_asm_block.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index e5e1f02..14be6b1 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -67,7 +67,12 @@ func struct emit_location *asm_block_load_registers_which_was_used_by_user(struc
     
     loc = emit_location_loaded(context, register_kind, reg, size);
     loc->inline_asm__was_used_by_user = true;
-    return loc;
+    
+    // @note: Also return a copy for the first use, as another operand of the same instruction
+    //        might use the register with a different size, e.g. 'crc32 edi, byte ptr [rdi]'.
+    struct emit_location *ret = push_struct(&context->scratch, struct emit_location);
+    *ret = *loc;
+    return ret;
 }
 
 // @cleanup: if we keep this function, eventually remove the '_' currently here to clean old usages!
@@ -1417,12 +1422,16 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             case MEMONIC_crc32:{
                 struct emit_location *loaded = emit_load_without_freeing_gpr(context, lhs);
                 struct prefixes prefix = create_prefixes(ASM_PREFIX_F2);
-                struct opcode opcode = three_byte_opcode(0x38, 0xf1);
+                struct opcode opcode = three_byte_opcode(0x38, (rhs->size == 1) ? 0xf0 : 0xf1);
+                
+                // @note: The operand size is determined by the source, except that 'crc32 r64, r/m8' exists.
+                smm size = (rhs->size == 1) ? loaded->size : rhs->size;
                 
                 if(rhs->state == EMIT_LOCATION_loaded){
-                    emit_register_register(context, prefix, opcode, loaded, rhs);
+                    emit_register_op__internal(context, prefix, opcode, loaded->loaded_register, rhs->loaded_register, size);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_register_relative);
+                    rhs->size = size;
                     emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
                 }
                 if(loaded != lhs) emit_store(context, lhs, loaded);
-- 
2.43.0


From d9c1834e93c89772d873761bd5a4c92d23bb8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 116/132] fix: sal was encoded as an undefined opcode in
 __asm__ blocks

---
 src/emit_inline_asm_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 14be6b1..51d996e 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -649,6 +649,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             case MEMONIC_shl: case MEMONIC_shr:
             case MEMONIC_sal: case MEMONIC_sar:{
                 u8 REG_OPCODE = (u8)(inst->memonic - MEMONIC_rol);
+                if(inst->memonic == MEMONIC_sal) REG_OPCODE = (u8)(MEMONIC_shl - MEMONIC_rol); // 'sal' is just another name for 'shl'.
                 b32 compound = lhs->state == EMIT_LOCATION_register_relative;
                 emit_shift_or_rotate__internal(context, user_prefixes, lhs, rhs, REG_OPCODE, compound);
             }break;
-- 
2.43.0


From e98a2e69100f0c5d0e484a49dad636109bd3fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 117/132] fix: shift and rotate of 8-bit registers by cl were
 encoded as 32-bit instructions

---
 src/emit_x64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 879e735..7faa98b 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2236,7 +2236,7 @@ func struct emit_location *emit_shift_or_rotate__internal(struct context *contex
             ret = lhs_loc;
         }else{
             struct emit_location *lhs = emit_load_gpr(context, lhs_loc);
-            emit_reg_extended_op(context, prefixes, one_byte_opcode(SHIFT_OR_ROTATE_REGM_CL), reg_extension, lhs);
+            emit_reg_extended_op(context, prefixes, one_byte_opcode((size == 1) ? SHIFT_OR_ROTATE_REGM8_CL : SHIFT_OR_ROTATE_REGM_CL), reg_extension, lhs);
             lhs->size = size; // truncate it
             ret = lhs;
         }
-- 
2.43.0


From ecd94df9d639dec00421aaeb343783f7cc69fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 118/132] fix: encoding of vmovss, vinsertf128 and vsubps with
 memory operands, diagnose vmovss reg, reg and vpsraq

---
 src/emit_inline_asm_block.c |  3 ++-
 src/parse_asm_block.c       | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 51d996e..5ac37c6 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1374,6 +1374,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 prefix.vex_register = vex->loaded_register;
                 
                 if(operands[2]->state == EMIT_LOCATION_register_relative){
+                    operands[2]->size = operands[0]->size; // 'vinsertf128 ymm, ymm, xmm/m128, imm8' is a 256-bit instruction.
                     emit_register_relative_register(context, prefix, opcode, first->loaded_register, operands[2]);
                 }else{
                     emit_register_op__internal(context, prefix, opcode, first->loaded_register, operands[2]->loaded_register, operands[0]->size);
@@ -1393,7 +1394,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 assert(lhs->state == EMIT_LOCATION_loaded);
                 
                 if(rhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, create_prefixes(ASM_PREFIX_F3), two_byte_opcode(0x10), lhs->loaded_register, rhs);
+                    emit_register_relative_register(context, create_prefixes(ASM_PREFIX_F3 | ASM_PREFIX_VEX), two_byte_opcode(0x10), lhs->loaded_register, rhs);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_loaded);
                     emit_register_op__internal(context, create_prefixes(ASM_PREFIX_F3), two_byte_opcode(0x10), lhs->loaded_register, rhs->loaded_register, rhs->size);
diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 2aaa59d..44586c7 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -2231,6 +2231,10 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
             }
         }break;
         
+        case MEMONIC_vpsraq:{
+            report_error(context, token, "Instruction 'vpsraq' requires AVX512F, which is not supported.");
+        }break;
+        
         case MEMONIC_psraq:{
             report_error(context, token, "Instruction 'psraq' does not exist, consider using 'vpsraq' instead (requires AVX512F).");
         }break;
@@ -2288,10 +2292,9 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
         case MEMONIC_vpshufb:
         case MEMONIC_vshufps: case MEMONIC_vblendps: case MEMONIC_vperm2f128: // 'op ymm1, ymm2, ymm3/m256, imm8' or 'op xmm1, xmm2, xmm3/m128, imm8'
         case MEMONIC_vpminub: case MEMONIC_vpxor:
-        case MEMONIC_vmulps:  case MEMONIC_vaddps:{ // 'op ymm1, ymm2, ymm3/m256' or 'op xmm1, xmm2, xmm3/m128'
-            if(asm_instruction->operands[2].size == 0){ // @cleanup: regm_index ? 
-                u32 size = (memonic == MEMONIC_movsd) ? 8 : 4;
-                asm_instruction->operands[regm_index].size = size;
+        case MEMONIC_vmulps:  case MEMONIC_vaddps:  case MEMONIC_vsubps:{ // 'op ymm1, ymm2, ymm3/m256' or 'op xmm1, xmm2, xmm3/m128'
+            if(asm_instruction->operands[2].size == 0){
+                asm_instruction->operands[2].size = asm_instruction->operands[0].size;
             }
             
             smm size = asm_instruction->operands[0].size;
@@ -2325,6 +2328,10 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
         }break;
         
         case MEMONIC_vmovss:{ // @incomplete: this has weird forms we only support one right now
+            if(asm_instruction->operands[1].kind == ASM_ARG_register){
+                report_error(context, token, "The second operand of '%.*s' has to be a memory location.", token->size, token->data);
+            }
+            
             if(regm_index != -1 && asm_instruction->operands[regm_index].size == 0){
                 asm_instruction->operands[regm_index].size = 4;
             }
-- 
2.43.0


From 0d8b5cec49c47812efa05b3822ee33f264031ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 119/132] fix: memory operands of comisd and ucomisd, operand
 sizes of lzcnt were not checked

---
 src/parse_asm_block.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 44586c7..915e6ec 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -791,8 +791,8 @@ static struct{
     
     [MEMONIC_comiss]  = {.memonic = const_string("comiss"),  .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm32},
     [MEMONIC_ucomiss] = {.memonic = const_string("ucomiss"), .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm32},
-    [MEMONIC_comisd]  = {.memonic = const_string("comisd"),  .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm32},
-    [MEMONIC_ucomisd] = {.memonic = const_string("ucomisd"), .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm32},
+    [MEMONIC_comisd]  = {.memonic = const_string("comisd"),  .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm64},
+    [MEMONIC_ucomisd] = {.memonic = const_string("ucomisd"), .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm64},
     
     [MEMONIC_pxor]  = {.memonic = const_string("pxor"),  .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm128 },
     [MEMONIC_por]   = {.memonic = const_string("por"),   .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm128 },
@@ -1978,6 +1978,7 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
         case MEMONIC_xor:  case MEMONIC_cmp:
         case MEMONIC_bt:   case MEMONIC_bts: case MEMONIC_btr: case MEMONIC_btc: // 'op regm, reg' or 'op regm, imm8'
         case MEMONIC_bsf:  case MEMONIC_bsr: // 'op reg, regm'
+        case MEMONIC_lzcnt:
         case MEMONIC_popcnt:{                // 'op reg, regm'
             
             //
-- 
2.43.0


From a9b8b81b501293dd4c155ff62aae3ba45b6e158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 120/132] fix: memory operands of __asm__ blocks: gs: override,
 32-bit addresses, scale, offset and sign of the offset

---
 src/emit_inline_asm_block.c |  3 +++
 src/emit_x64.c              | 15 ++++++++++++-
 src/parse_asm_block.c       | 45 ++++++++++++++++++++++++++++++-------
 3 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 5ac37c6..df8c387 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -184,6 +184,9 @@ func struct emit_location *_asm_block_resolve_and_allocate_operand(struct contex
                 case 8: ret->log_index_scale = 3; break;
             }
             
+            ret->has_32_bit_address = operand->has_32_bit_address;
+            ret->is_gs_relative = (instruction->prefixes & ASM_PREFIX_gs) != 0;
+            
             return ret;
         }break;
         case ASM_ARG_immediate:{
diff --git a/src/emit_x64.c b/src/emit_x64.c
index 7faa98b..31cc0f5 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -578,7 +578,12 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
     enum legacy_prefixes prefixes = _prefixes.legacy_prefixes;
     
     if(prefixes & ASM_PREFIX_VEX){
-        b32 is_three_byte = false;
+        if(prefixes & ASM_PREFIX_gs){
+            emit(0x65);
+            prefixes &= ~ASM_PREFIX_gs;
+        }
+        
+        b32 is_three_byte = (size == 8); // VEX.W only exists in the three byte encoding.
         if(register_is_extended(regm) || (index >= 0  && register_is_extended(index))) is_three_byte = true;
         
         if(opcode.amount_of_bytes == 3) is_three_byte = true;
@@ -611,6 +616,7 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
             
             u8 byte = (rex << 5) | mmmmm;
             emit(byte);
+            if(size == 8) last_byte |= 0x80; // VEX.W
         }else{
             emit(0xc5); // two byte vex
             last_byte |= register_is_extended(reg) ? 0 : 0x80; // note: inverted!
@@ -764,6 +770,9 @@ struct emit_location{
             smm log_index_scale;
             smm offset;
             struct ir *ir; // rip_relative iff (ast != null)
+            
+            b32 is_gs_relative;     // only for memory operands in __asm__-blocks.
+            b32 has_32_bit_address; // only for memory operands in __asm__-blocks, e.g. '[eax]'.
         }; // register_relative & rip_relative
     };
 };
@@ -816,6 +825,8 @@ func struct emit_location *emit_location_register_relative__internal(struct cont
     ret->log_index_scale = 0; // @note: this is almost never used, thus we set it specifically if we need it...
     ret->offset = offset;
     ret->ir = ir;
+    ret->is_gs_relative = false;
+    ret->has_32_bit_address = false;
     
     return ret;
 }
@@ -1177,6 +1188,8 @@ func void emit_register_relative__internal(struct context *context, struct prefi
     enum register_encoding base =  loc->base->loaded_register;
     enum register_encoding index = loc->index ? loc->index->loaded_register : INVALID_REGISTER;
     
+    if(loc->has_32_bit_address) emit(LEGACY_ADDRESS_SIZE_OVERRIDE_PREFIX);
+    if(loc->is_gs_relative) prefixes.legacy_prefixes |= ASM_PREFIX_gs;
     emit_prefixes_and_opcode(context, prefixes, other_reg, base, index, loc->size, opcode);
     
     u8 mod = MODRM_REGM;
diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 915e6ec..0331aa9 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -109,6 +109,7 @@ struct asm_operand{
             enum asm_register index;
             smm scale;
             smm offset;
+            b32 has_32_bit_address;
         };
         struct{ // ASM_ARG_declaration_reference
             struct ast_declaration *declaration;
@@ -1507,7 +1508,7 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     enum asm_register index = -1;
     smm scale  = 1;
     smm offset = 0;
-    b32 offset_is_negative = false;
+    b32 has_32_bit_address = false;
     
     b32 finished = false;
     
@@ -1517,12 +1518,15 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
         if(reg.kind != ASM_ARG_invalid){
             base = reg.reg;
             
+            if(reg.size != 8 && reg.size != 4){
+                report_error(context, get_current_token_for_error_report(context), "The base of an asm memory operand has to be a 64-bit or 32-bit register.");
+            }
+            has_32_bit_address = (reg.size == 4);
+            
             finished = (peek_token_eat(context, TOKEN_plus) == null);
             
-            if(finished && peek_token(context, TOKEN_minus)){
-                offset_is_negative = true;
-                goto skip_scale;
-            }
+            // @note: The '-' is parsed as part of the offset.
+            if(finished && peek_token(context, TOKEN_minus)) goto skip_scale;
         }
     }
     
@@ -1536,7 +1540,22 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
                 scale = parse_base10_literal(context, scale_or_offset).value;
                 index = reg.reg;
                 
-                finished = peek_token_eat(context, TOKEN_plus) || peek_token_eat(context, TOKEN_minus);
+                if(scale != 1 && scale != 2 && scale != 4 && scale != 8){
+                    report_error(context, scale_or_offset, "The scale of an asm memory operand has to be 1, 2, 4 or 8.");
+                }
+                
+                if(reg.size != (has_32_bit_address ? 4 : 8)){
+                    report_error(context, scale_or_offset, "The index and the base of an asm memory operand have to have the same size.");
+                }
+                
+                if(index == ASM_REGISTER_rsp){
+                    report_error(context, scale_or_offset, "'rsp' cannot be used as the index of an asm memory operand.");
+                }
+                
+                finished = (peek_token_eat(context, TOKEN_plus) == null);
+                
+                // @note: The '-' is parsed as part of the offset.
+                if(finished && peek_token(context, TOKEN_minus)) goto skip_scale;
             }
         }else{
             prev_token(context);
@@ -1551,10 +1570,16 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
         expect_token(context, TOKEN_closed_index, "Expected ']' ending the memory operand.");
         
         if(operand.kind == ASM_ARG_immediate){
-            // @cleanup: report on overflow and so on.
             offset = operand.immediate;
+            if(offset < s32_min || offset > s32_max){
+                report_error(context, start_token, "The offset of an asm memory operand has to fit into 32 bits.");
+            }
         }else if(operand.kind == ASM_ARG_declaration_reference){
             
+            if(base != -1 || index != -1){
+                report_error(context, start_token, "The offset of an asm memory operand has to be an integer literal.");
+            }
+            
             smm pointer_to_size = 0;
             if(operand.declaration->type->kind != AST_pointer_type){
                 // @note: The token is sort of a hack.
@@ -1582,12 +1607,16 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
         expect_token(context, TOKEN_closed_index, "Expected ']' ending the memory operand.");
     }
     
+    if(base == -1){
+        report_error(context, size_ident, "An asm memory operand needs a base register.");
+    }
     
     arg.kind   = ASM_ARG_memory_operand;
     arg.base   = base;
     arg.index  = index;
     arg.scale  = scale;
-    arg.offset = offset_is_negative ? -offset : offset;
+    arg.offset = offset;
+    arg.has_32_bit_address = has_32_bit_address;
     arg.size   = size;
     if(is_gs_relative) context->current_asm_flags |= ASM_PREFIX_gs;
     
-- 
2.43.0


From b4f6ab957a9911357a0c4efd357ec5afb530ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 121/132] fix: the string record of the compiler's path in the
 .pdb was not zero terminated

---
 src/coff_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index da0c793..80811a3 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -2493,7 +2493,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 char *ModuleFileName = push_uninitialized_data(&ipi_stream, char, MAX_PATH + 1);
                 smm ModuleFileNameLength = GetModuleFileNameA(null, ModuleFileName, MAX_PATH + 1); // @cleanup: What about utf-8?
                 ModuleFileName[ModuleFileNameLength] = 0;
-                ipi_stream.current -= (MAX_PATH + 1) - ModuleFileNameLength;
+                ipi_stream.current -= (MAX_PATH + 1) - (ModuleFileNameLength + 1);
                 
                 end_id_record();
             }
-- 
2.43.0


From 6f7b77aacecc394fbf07580cbb836d070118ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 122/132] fix: debug records of static and external variables
 were exchanged in object files

---
 src/obj_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 1741502..3299a7a 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2336,7 +2336,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                             u8  identifier[];
                         } *data_symbol = push_struct_(arena, offset_in_type(struct codeview_data32, identifier) + (decl->identifier->length + 1), 4);
                         
-                        u16 kind = ((decl->flags & DECLARATION_FLAGS_is_thread_local) ? /*S_LTHREAD32*/0x1112 : /* S_LDATA32 */ 0x110c) + ((decl->flags & DECLARATION_FLAGS_is_static) != 0);
+                        u16 kind = ((decl->flags & DECLARATION_FLAGS_is_thread_local) ? /*S_LTHREAD32*/0x1112 : /* S_LDATA32 */ 0x110c) + ((decl->flags & DECLARATION_FLAGS_is_static) == 0);
                         data_symbol->kind = kind;
                         data_symbol->type_index = decl->type->pdb_type_index;
                         memcpy(data_symbol->identifier, decl->identifier->data, decl->identifier->length);
-- 
2.43.0


From 927eec8a50c4c188687cddeb7cc03d53c4c23fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 123/132] fix: function ids in object files did not refer to
 the type of the function

---
 src/obj_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 3299a7a..dd49070 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1990,6 +1990,9 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         for(struct ast_list_node *function_node = defined_functions.first; function_node; function_node = function_node->next){
             struct ast_function *function = (struct ast_function *)function_node->value;
             
+            // Register the type of the function itself, it is needed for the LF_FUNC_ID below.
+            register_type(&type_index_allocator, arena, scratch, &function->type->base);
+            
             // 
             // Iterate down all statements registering the types of all declarations.
             // 
-- 
2.43.0


From ed31955ebbfcef35d8cdcfc4fd1ec8935827d105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:13 +0000
Subject: [PATCH 124/132] fix: debug information described parameters passed by
 reference as if their slot contained the value

---
 src/ast.c        |  2 ++
 src/obj_writer.c | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 28b28e5..23c49d6 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -573,6 +573,8 @@ struct ast_declaration{
         struct declaration_reference_node *first;
         struct declaration_reference_node *last;
     } referenced_declarations;
+    
+    u32 pdb_reference_type_index; // For 'DECLARATION_FLAGS_is_big_function_argument', the type index of a pointer to 'type'.
 };
 
 struct declaration_list{
diff --git a/src/obj_writer.c b/src/obj_writer.c
index dd49070..c20fcfa 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -621,6 +621,18 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
     end_temporary_memory(temp);
 }
 
+void register_declaration_type(u32 *inout_type_index, struct memory_arena *arena, struct memory_arena *scratch, struct ast_declaration *decl){
+    
+    register_type(inout_type_index, arena, scratch, decl->type);
+    
+    if(decl->flags & DECLARATION_FLAGS_is_big_function_argument){
+        // The slot of this parameter only contains a pointer to the argument. :PassingStructArguments
+        struct ast_pointer_type reference_type = { .base = { .kind = AST_pointer_type, .size = 8, .alignment = 8 }, .pointer_to = decl->type };
+        register_type(inout_type_index, arena, scratch, &reference_type.base);
+        decl->pdb_reference_type_index = reference_type.base.pdb_type_index;
+    }
+}
+
 u32 register_all_types(struct memory_arena *arena, struct memory_arena *scratch, struct memory_arena *stack_arena, struct ast_list defined_functions){
     
     u32 type_index_allocator = 0x1000;
@@ -702,7 +714,7 @@ u32 register_all_types(struct memory_arena *arena, struct memory_arena *scratch,
             for(smm declaration_index = 0; declaration_index < scope->current_max_amount_of_declarations; declaration_index++){
                 struct ast_declaration *decl = scope->declarations[declaration_index];
                 if(!decl) continue;
-                register_type(&type_index_allocator, arena, scratch, decl->type);
+                register_declaration_type(&type_index_allocator, arena, scratch, decl);
             }
             
             for(smm compound_index = 0; compound_index < scope->current_max_amount_of_compound_types; compound_index++){
@@ -817,7 +829,7 @@ void codeview_emit_debug_information_for_function__recursive(struct ast_function
             
             regrel->kind = /*S_REGREL32*/0x1111;
             regrel->offset_of_register = (s32)(-decl->offset_on_stack);
-            regrel->type_index = decl->type->pdb_type_index;
+            regrel->type_index = (decl->flags & DECLARATION_FLAGS_is_big_function_argument) ? decl->pdb_reference_type_index : decl->type->pdb_type_index;
             regrel->register_index = /*CV_AMD64_RBP*/334;
             memcpy(regrel->identifier, decl->identifier->string.data, decl->identifier->string.size);
             regrel->identifier[decl->identifier->string.size] = 0;
@@ -2017,7 +2029,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 for(smm declaration_index = 0; declaration_index < scope->current_max_amount_of_declarations; declaration_index++){
                     struct ast_declaration *decl = scope->declarations[declaration_index];
                     if(!decl) continue;
-                    register_type(&type_index_allocator, arena, scratch, decl->type);
+                    register_declaration_type(&type_index_allocator, arena, scratch, decl);
                 }
                 
                 for(smm compound_index = 0; compound_index < scope->current_max_amount_of_compound_types; compound_index++){
-- 
2.43.0


From 5237f9685f5d230c1de8fb1a783d8ed6ee38b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:13 +0000
Subject: [PATCH 125/132] fix: the types char * and unsigned char * were
 exchanged in the .pdb

---
 src/obj_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index c20fcfa..96bc383 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -25,10 +25,10 @@ enum CV_basic_type{
     //CV_u8_pointer = 0x0169,
     
     // char *
-    CV_s8_pointer = 0x0620,
+    CV_s8_pointer = 0x0670,
     
     // unsigned char *
-    CV_u8_pointer = 0x0670,
+    CV_u8_pointer = 0x0620,
 };
 
 void push_f3f2f1_align(struct memory_arena *arena, u32 alignment){
-- 
2.43.0


From 4a3e1601b2203ff4bc1e1a1c0e76d82b8c28c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:19 +0000
Subject: [PATCH 126/132] fix: static initialisers rejected addresses computed
 through dereferenced or subscripted known addresses

---
 src/main.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 639075b..e434349 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2413,6 +2413,23 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 ir_stack[ir_stack_at-1].offset += dot->member->offset_in_type;
             }break;
             
+            case IR_deref:{
+                ir_offset += sizeof(struct ir_deref);
+                
+                // Only a known address can be dereferenced, e.g. '*(array + 1)', but not the value of a pointer.
+                if(!ir_stack[ir_stack_at-1].is_address || !ir_stack[ir_stack_at-1].ir) goto initializer_not_constant;
+                ir_stack[ir_stack_at-1].is_address = 0;
+            }break;
+            case IR_member_deref:{
+                ir_offset += sizeof(struct ir_dot_or_arrow);
+                
+                if(!ir_stack[ir_stack_at-1].is_address || !ir_stack[ir_stack_at-1].ir) goto initializer_not_constant;
+                ir_stack[ir_stack_at-1].is_address = 0;
+                
+                struct ir_dot_or_arrow *arrow = (struct ir_dot_or_arrow *)ir_node;
+                ir_stack[ir_stack_at-1].offset += arrow->member->offset_in_type;
+            }break;
+            
             case IR_load_address:{
                 ir_offset += sizeof(struct ir);
                 
@@ -2436,11 +2453,16 @@ func void evaluate_static_initializer__internal(struct context *context, struct
             // Binary expressions:
             // 
             
-            case IR_array_subscript:{
+            case IR_array_subscript: case IR_pointer_subscript:{
                 struct ir_subscript *subscript = (struct ir_subscript *)ir_node;
                 ir_offset += sizeof(struct ir_subscript);
                 ir_stack_at -= 1;
                 
+                if(ir_node->kind == IR_pointer_subscript){
+                    if(!ir_stack[ir_stack_at-1].is_address || !ir_stack[ir_stack_at-1].ir) goto initializer_not_constant;
+                    ir_stack[ir_stack_at-1].is_address = 0;
+                }
+                
                 struct ir *index = ir_stack[ir_stack_at].ir;
                 
                 if(index->kind == IR_integer_literal){
-- 
2.43.0


From 6aa2147d2c28283694ab18992a971c585095dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:19 +0000
Subject: [PATCH 127/132] fix: dividing the smallest integer by -1 in a
 constant expression crashed the compiler

---
 src/parse.c      | 4 ++++
 src/preprocess.c | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 834a9a5..0aa34d8 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2995,6 +2995,8 @@ switch(operation->type){                                                  \
     case TOKEN_slash:{                                                    \
         if(rhs_val == 0){                                                 \
             report_error(context, operation, "Integer division by 0.");   \
+        }else if((basic_type)-1 < 0 && rhs_val == (basic_type)-1){        \
+            lhs->_##basic_type = (basic_type)(0 - (u64)lhs_val); /* INT_MIN / -1 traps. */ \
         }else{                                                            \
             lhs->_##basic_type = lhs_val / rhs_val;                       \
         }                                                                 \
@@ -3002,6 +3004,8 @@ switch(operation->type){                                                  \
     case TOKEN_mod:{                                                      \
         if(rhs_val == 0){                                                 \
             report_error(context, operation, "Integer modulation by 0."); \
+        }else if((basic_type)-1 < 0 && rhs_val == (basic_type)-1){        \
+            lhs->_##basic_type = 0; /* INT_MIN % -1 traps. */             \
         }else{                                                            \
             lhs->_##basic_type = lhs_val % rhs_val;                       \
         }                                                                 \
diff --git a/src/preprocess.c b/src/preprocess.c
index a952d2f..b25654d 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3255,6 +3255,10 @@ func s64 static_if_evaluate(struct context *context){
                     report_error(context, get_current_token_for_error_report(context), "Divide by zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
                 }
+                if(!is_unsigned && (s64)value == -1){
+                    value = 0 - (u64)current->value; // INTMAX_MIN / -1 traps.
+                    break;
+                }
                 value = is_unsigned ? ((u64)current->value / (u64)value) : ((s64)current->value / (s64)value);
             }break;
             
@@ -3265,6 +3269,10 @@ func s64 static_if_evaluate(struct context *context){
                     report_error(context, get_current_token_for_error_report(context), "Mod with zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
                 }
+                if(!is_unsigned && (s64)value == -1){
+                    value = 0; // INTMAX_MIN % -1 traps.
+                    break;
+                }
                 value = is_unsigned ? ((u64)current->value % (u64)value) : ((s64)current->value % (s64)value);
             }break;
             
-- 
2.43.0


From 17b2889e4ce33c73e2895583965df3cf876160ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:19 +0000
Subject: [PATCH 128/132] fix: a huge array designator index overflowed and
 crashed the compiler

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 0aa34d8..3abef53 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2311,7 +2311,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                         value = integer_literal_as_u64(&index);
                     }
                     
-                    if(value >= 0x7fffffffffffffff){
+                    if(value >= 0x7fffffff){ // @note: Arrays cannot exceed 0x7fffffff bytes and 'value * size' must not overflow.
                         report_error(context, index.token, "Array subscript is to big.");
                         goto error;
                     }
-- 
2.43.0


From 4a53e3740b5e98dbf6d0ffcef91b31483b73482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:19 +0000
Subject: [PATCH 129/132] fix: include_next confused include directories whose
 names are prefixes of each other

---
 src/preprocess.c | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index b25654d..81005cb 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2765,31 +2765,34 @@ func struct file *load_or_get_source_file_by_absolute_path(struct context *conte
 // If the last include is null, this is called as a last resort in `get_or_load_file_for_include_string` otherwise it is called from #include_next.
 func struct file *get_or_load_file_by_walking_system_include_directories(struct context *context, struct string include_string, struct file *include_next){
     
-    int found_last = (include_next == null); 
+    struct string_list_node *first = globals.system_include_directories.list.first;
     
-    for(struct string_list_node *node = globals.system_include_directories.list.first; node; node = node->next){
-        
-        struct string directory = node->string;
+    if(include_next){
+        // 
+        // Find the directory that contains 'include_next', this is the longest one which is an initial part of its path.
+        // @note: An initial part has to end at a slash, 'inc2/file.h' is not contained in 'inc'.
+        // 
+        struct string include_next_file_path = string_from_cstring(include_next->absolute_file_path);
+        struct string_list_node *found = null;
         
-        if(!found_last){
-            // 
-            // Check if 'include_next->absolute_file_path' starts with 'node->string'.
-            // 
-            char *include_next_file_path = include_next->absolute_file_path;
+        for(struct string_list_node *node = first; node; node = node->next){
+            struct string directory = node->string;
+            while(directory.size && (directory.data[directory.size-1] == '/' || directory.data[directory.size-1] == '\\')) directory.size--;
             
-            int skip = false;
-            
-            for(smm index = 0; index < directory.size && include_next_file_path[index]; index++){
-                if(directory.data[index] != include_next_file_path[index]){
-                    skip = true;
-                    break;
-                }
-            }
+            if(directory.size >= include_next_file_path.size) continue;
+            if(memcmp(directory.data, include_next_file_path.data, directory.size) != 0) continue;
+            if(include_next_file_path.data[directory.size] != '/' && include_next_file_path.data[directory.size] != '\\') continue;
             
-            if(!skip) found_last = true;
-            continue;
+            if(!found || found->string.size < node->string.size) found = node;
         }
         
+        first = found ? found->next : null;
+    }
+    
+    for(struct string_list_node *node = first; node; node = node->next){
+        
+        struct string directory = node->string;
+        
         struct string path = concatenate_file_paths(&context->scratch, directory, include_string);
         struct os_file dummy = os_load_file((char *)path.data, 0, 0);
         if(!dummy.file_does_not_exist){
-- 
2.43.0


From ad7a16127940d031e48409d8020d05b746c07fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:19 +0000
Subject: [PATCH 130/132] fix: negative zero was true and NaN false when used
 as a condition

---
 src/parse.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 3abef53..4d13f2a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -482,6 +482,16 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
         if(ir_cast_to == IR_TYPE_bool){
             enum ir_kind ir_cast = IR_cast_to_bool;
             
+            if(cast_what->resolved_type->kind == AST_float_type && lhs_or_rhs != AST_cast_lhs){
+                // Negative zero is equal to zero and NaNs are unequal to zero, hence we need a floating point comparison.
+                struct ir_float_literal *zero = push_uninitialized_struct(&context->ir_arena, struct ir_float_literal);
+                zero->base.kind = IR_float_literal;
+                zero->type = cast_what->resolved_type;
+                zero->_f64 = 0.0;
+                
+                push_ir(context, (cast_what->resolved_type == &globals.typedef_f32) ? IR_unequals_f32 : IR_unequals_f64);
+            }
+            
             if(lhs_or_rhs == AST_cast_lhs) ir_cast += 1;
             cast_what->ir = push_ir(context, ir_cast);
         }else{
@@ -5825,7 +5835,7 @@ case NUMBER_KIND_##type:{ \
             
             case AST_unary_logical_not:{
                 
-                if(operand.ir->kind == IR_float_literal) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
+                if(operand.resolved_type->kind == AST_float_type) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
                 
                 if(operand.ir->kind == IR_integer_literal){
                     struct ir_integer_literal *lit = cast(struct ir_integer_literal *)operand.ir;
@@ -6619,7 +6629,7 @@ case NUMBER_KIND_##type:{ \
                     report_error(context, operand.token, "Right of '&&' has to be convertible to _Bool.");
                     return operand;
                 }
-                if(operand.ir->kind == IR_float_literal) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
+                if(operand.resolved_type->kind == AST_float_type) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
                 
                 // 
                 // Code for &&
@@ -6734,7 +6744,7 @@ case NUMBER_KIND_##type:{ \
                     report_error(context, operand.token, "Right of '||' has to be convertible to _Bool.");
                     return operand;
                 }
-                if(operand.ir->kind == IR_float_literal) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
+                if(operand.resolved_type->kind == AST_float_type) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
                 
                 struct expr *op_lhs_expr = &stack_entry->operand;
                 struct ir *op_lhs = stack_entry->operand.ir;
@@ -7407,7 +7417,7 @@ case NUMBER_KIND_##type:{ \
                 report_error(context, next_token(context), "Left of '&&' has to be convertible to _Bool.");
                 return operand;
             }
-            if(operand.ir->kind == IR_float_literal) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
+            if(operand.resolved_type->kind == AST_float_type) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
             
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_false);
             conditional_jump->label_number = context->jump_label_index++;
@@ -7426,7 +7436,7 @@ case NUMBER_KIND_##type:{ \
                 report_error(context, next_token(context), "Left of '||' has to be convertible to _Bool.");
                 return operand;
             }
-            if(operand.ir->kind == IR_float_literal) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
+            if(operand.resolved_type->kind == AST_float_type) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
             
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_true);
             conditional_jump->label_number = context->jump_label_index++;
@@ -7497,6 +7507,8 @@ case NUMBER_KIND_##type:{ \
                 // Non-constant conditional. We have to insert jumps and such.
                 // 
                 
+                if(operand.resolved_type->kind == AST_float_type) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &operand);
+                
                 struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_false);
                 conditional_jump->label_number = context->jump_label_index++;
                 
@@ -9232,6 +9244,7 @@ func void parse_statement(struct context *context){
                 report_error(context, condition.token, "'if' condition has to cast to bool.");
                 
             }
+            if(condition.resolved_type->kind == AST_float_type) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &condition);
             expect_token(context, TOKEN_closed_paren, "Expected ')' ending 'if' condition.");
             
             // Get the initial "returns a value state".
@@ -9337,6 +9350,7 @@ func void parse_statement(struct context *context){
                         parser_scope_pop(context, scope);
                         return;
                     }
+                    if(condition.resolved_type->kind == AST_float_type) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &condition);
                     expect_token(context, TOKEN_semicolon, "Expected ';' after 'for'-condition.");
                 }
                 
@@ -9417,6 +9431,7 @@ func void parse_statement(struct context *context){
                 report_error(context, condition.token, "'while' condition has to cast to bool.");
                 return;
             }
+            if(condition.resolved_type->kind == AST_float_type) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &condition);
             expect_token(context, TOKEN_closed_paren, "Expected ')' at the end of 'while'.");
             
             // :ir_refactor - new
@@ -9489,6 +9504,7 @@ func void parse_statement(struct context *context){
                 report_error(context, condition.token, "'while' condition has to cast to bool.");
                 return;
             }
+            if(condition.resolved_type->kind == AST_float_type) push_cast(context, AST_cast, &globals.typedef_Bool, /*defined_type*/null, &condition);
             expect_token(context, TOKEN_closed_paren, "Expected ')' ending 'while'-condition.");
             
             // :ir_refactor - new
-- 
2.43.0


From 3611e5e33b0b1711201b07cfab175e3280a1b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:19 +0000
Subject: [PATCH 131/132] fix: floating point comparisons with NaN gave wrong
 results

---
 src/emit_x64.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 31cc0f5..891e785 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3974,7 +3974,40 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 }
                 
                 struct emit_location *result;
-                if(ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64){
+                if((ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64) && (comp == COMP_equals || comp == COMP_unequals)){
+                    // 
+                    // After a 'comiss', "equal" and "unordered" (one of the operands is a NaN) cannot be told apart by one condition.
+                    // Hence, use 'cmpss' or 'cmpsd', which produce a mask.
+                    // 
+                    lhs = emit_load_float(context, maybe_move_loaded_gpr_to_xmm(context, lhs));
+                    emit_location_prevent_spilling(context, lhs);
+                    rhs = emit_load_float(context, maybe_move_loaded_gpr_to_xmm(context, rhs));
+                    
+                    smm float_size = (ir_type == IR_TYPE_f32) ? 4 : 8;
+                    emit_register_register(context, get_sse_prefix_for_scalar(float_size), two_byte_opcode(0xC2), lhs, rhs);
+                    emit((comp == COMP_equals) ? /*equal*/0 : /*not equal*/4);
+                    free_emit_location(context, rhs);
+                    
+                    // movd / movq result, lhs
+                    result = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), float_size);
+                    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(0x7E), lhs->loaded_register, result->loaded_register, float_size);
+                    emit_location_allow_spilling(context, lhs);
+                    free_emit_location(context, lhs);
+                    
+                    emit_register_register(context, no_prefix(), one_byte_opcode(TEST_REGM_REG), result, result);
+                    comp = COMP_not_zero;
+                }else if(ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64){
+                    // 
+                    // If one of the operands is a NaN, 'comiss' reports "smaller" and "equal". 
+                    // Hence, only the conditions "bigger" and "bigger equals" are usable.
+                    // 
+                    if(comp == COMP_smaller || comp == COMP_smaller_equals){
+                        struct emit_location *temp = lhs;
+                        lhs = rhs;
+                        rhs = temp;
+                        comp = (comp == COMP_smaller) ? COMP_bigger : COMP_bigger_equals;
+                    }
+                    
                     rhs = maybe_move_loaded_gpr_to_xmm(context, rhs);
                     lhs = emit_load_float(context, maybe_move_loaded_gpr_to_xmm(context, lhs));
                     
-- 
2.43.0


From 506e66418926c8769e12928fbd9217b31121ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:19 +0000
Subject: [PATCH 132/132] fix: converting a float or double of at least 2^63 to
 a 64-bit unsigned integer gave a wrong value

---
 src/emit_x64.c | 59 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 891e785..ece4375 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2641,6 +2641,51 @@ struct emit_location *emit_float_cast(struct context *context, struct emit_locat
     return loaded;
 }
 
+// 
+// There is no instruction to convert to an unsigned 64-bit integer. If the value is too big for a signed integer, 
+// 'cvttss2si' and 'cvttsd2si' return 0x8000000000000000. In this case, we or in the conversion of 'value - 2^63'.
+// 
+struct emit_location *emit_float_cast_to_u64(struct context *context, struct emit_location *loc, smm float_size){
+    struct prefixes prefix = get_sse_prefix_for_scalar(float_size);
+    
+    struct emit_location *value = emit_load_float(context, maybe_move_loaded_gpr_to_xmm(context, loc));
+    emit_location_prevent_spilling(context, value);
+    
+    // cvttsd2si converted, value
+    struct emit_location *converted = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 8);
+    emit_register_op__internal(context, prefix, two_byte_opcode(0x2c), converted->loaded_register, value->loaded_register, 8);
+    emit_location_prevent_spilling(context, converted);
+    
+    // subsd value, 2^63
+    struct emit_location *big = emit_load_gpr(context, emit_location_immediate(context, (float_size == 4) ? 0x5f000000 : 0x43e0000000000000, float_size));
+    big = maybe_move_loaded_gpr_to_xmm(context, big);
+    emit_register_register(context, prefix, two_byte_opcode(SUB_XMM), value, big);
+    free_emit_location(context, big);
+    
+    // cvttsd2si converted_big, value
+    struct emit_location *converted_big = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 8);
+    emit_register_op__internal(context, prefix, two_byte_opcode(0x2c), converted_big->loaded_register, value->loaded_register, 8);
+    emit_location_prevent_spilling(context, converted_big);
+    emit_location_allow_spilling(context, value);
+    free_emit_location(context, value);
+    
+    // mask = converted >> 63 (all ones, if the value was too big)
+    struct emit_location *mask = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 8);
+    emit_register_register(context, no_prefix(), one_byte_opcode(MOVE_REG_REGM), mask, converted);
+    emit_reg_extended_op(context, no_prefix(), one_byte_opcode(SHIFT_OR_ROTATE_REGM_IMMEDIATE8), REG_OPCODE_SHIFT_ARITHMETIC_RIGHT, mask);
+    emit(63);
+    
+    // converted |= converted_big & mask
+    emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), converted_big, mask);
+    emit_register_register(context, no_prefix(), one_byte_opcode(OR_REG_REGM), converted, converted_big);
+    free_emit_location(context, mask);
+    emit_location_allow_spilling(context, converted_big);
+    free_emit_location(context, converted_big);
+    emit_location_allow_spilling(context, converted);
+    
+    return converted;
+}
+
 
 //_____________________________________________________________________________________________________________________
 // :emit_code_for_function__internal
@@ -3012,8 +3057,15 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 8, 0x2c);
             }break;
-            case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:
-            case IR_cast_f32_to_u64: case IR_cast_f32_to_u64_lhs:{
+            case IR_cast_f32_to_u64: case IR_cast_f32_to_u64_lhs:
+            case IR_cast_f64_to_u64: case IR_cast_f64_to_u64_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                smm float_size = (ir_kind == IR_cast_f32_to_u64 || ir_kind == IR_cast_f32_to_u64_lhs) ? 4 : 8;
+                emit_location_stack[stack_index] = emit_float_cast_to_u64(context, emit_location_stack[stack_index], float_size);
+            }break;
+            
+            case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 8, 8, 0x2c);
@@ -3041,8 +3093,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_double, 4, 8, 0x2c);
             }break;
-            case IR_cast_f64_to_s64: case IR_cast_f64_to_s64_lhs:
-            case IR_cast_f64_to_u64: case IR_cast_f64_to_u64_lhs:{
+            case IR_cast_f64_to_s64: case IR_cast_f64_to_s64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 
-- 
2.43.0

