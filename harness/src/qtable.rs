// generated by tools/gen_queries.py
use crate::kinds::*;
use crate::q;
use crate::queries::*;
use arche_tape::EcsIds;

q!(Q0, v0: &'static C0);
q!(Q1, v0: &'static mut C1);
q!(Q2, v0: &'static C2);
q!(Q3, v0: &'static mut C3);
q!(Q4, v0: &'static C4);
q!(Q5, v0: &'static mut C5);
q!(Q6, v0: &'static C6);
q!(Q7, v0: &'static mut C7);
q!(Q8, v0: &'static C8);
q!(Q9, v0: &'static mut C9);
q!(Q10, v0: &'static C10);
q!(Q11, v0: &'static mut C11);
q!(Q12, v0: &'static C12);
q!(Q13, v0: &'static mut C13);
q!(Q14, v0: &'static C14);
q!(Q15, v0: &'static mut C15);
q!(Q16, v0: &'static C16);
q!(Q17, v0: &'static mut C17);
q!(Q18, v0: &'static C18);
q!(Q19, v0: &'static mut C19);
q!(Q20, v0: &'static C20);
q!(Q21, v0: &'static mut C21);
q!(Q22, v0: &'static C22);
q!(Q23, v0: &'static mut C23);
q!(Q24, v0: EcsIds);
q!(Q25, v0: EcsIds, v1: &'static C3);
q!(Q26, v0: &'static C3, v1: EcsIds);
q!(Q27, v0: EcsIds, v1: EcsIds);
q!(Q28, v0: &'static C3, v1: &'static C3);
q!(Q29, v0: &'static C14, v1: EcsIds, v2: &'static C14);
q!(Q30, v0: &'static C7, v1: &'static C8);
q!(Q31, v0: EcsIds, v1: &'static mut C5);
q!(Q32, v0: EcsIds, v1: &'static C0);
q!(Q33, v0: EcsIds, v1: &'static mut C22);
q!(Q34, v0: &'static mut C4, v1: EcsIds);
q!(Q35, v0: &'static mut C9, v1: &'static mut C21);
q!(Q36, v0: &'static mut C17, v1: EcsIds, v2: &'static C6);
q!(Q37, v0: EcsIds, v1: &'static C12, v2: &'static C7);
q!(Q38, v0: &'static mut C7, v1: &'static mut C14, v2: &'static C11);
q!(Q39, v0: &'static mut C23, v1: &'static mut C8, v2: EcsIds);
q!(Q40, v0: &'static mut C13, v1: &'static mut C4, v2: &'static C2);
q!(Q41, v0: EcsIds, v1: &'static mut C23, v2: &'static mut C1);
q!(Q42, v0: EcsIds, v1: &'static C20, v2: &'static mut C0, v3: &'static mut C10);
q!(Q43, v0: EcsIds, v1: &'static C20, v2: &'static C8, v3: &'static C21);
q!(Q44, v0: &'static C15, v1: &'static C8, v2: &'static mut C16, v3: &'static C0);
q!(Q45, v0: &'static mut C10, v1: &'static C12, v2: &'static C7, v3: &'static mut C11);
q!(Q46, v0: &'static mut C4, v1: &'static mut C7, v2: &'static mut C9, v3: &'static mut C21);
q!(Q47, v0: &'static C9, v1: &'static mut C21, v2: &'static mut C22, v3: EcsIds, v4: &'static mut C12);
q!(Q48, v0: &'static C18, v1: &'static C3, v2: &'static mut C0, v3: &'static C22, v4: &'static mut C6);
q!(Q49, v0: &'static mut C5, v1: &'static C2, v2: &'static mut C21, v3: &'static C9, v4: &'static mut C0);
q!(Q50, v0: &'static C16, v1: &'static mut C6, v2: EcsIds, v3: &'static mut C21, v4: &'static C0);
q!(Q51, v0: &'static C19, v1: &'static C12, v2: &'static C6, v3: &'static C17, v4: &'static mut C13, v5: &'static C18);
q!(Q52, v0: &'static mut C22, v1: &'static C5, v2: &'static C20, v3: &'static C11, v4: EcsIds, v5: &'static mut C2);
q!(Q53, v0: &'static C7, v1: &'static mut C0, v2: &'static C14, v3: &'static C23, v4: &'static C21, v5: &'static mut C4);
q!(Q54, v0: &'static C14, v1: &'static C18, v2: &'static mut C16, v3: &'static mut C8, v4: &'static mut C7, v5: &'static mut C0, v6: &'static C21);
q!(Q55, v0: &'static C5, v1: &'static mut C22, v2: EcsIds, v3: &'static C8, v4: &'static C20, v5: &'static mut C11, v6: &'static mut C13);
q!(Q56, v0: EcsIds, v1: &'static C21, v2: &'static C15, v3: &'static C4, v4: &'static C19, v5: &'static mut C22, v6: &'static C20);
q!(Q57, v0: &'static C23, v1: &'static C14, v2: &'static C15, v3: &'static C16, v4: &'static C6, v5: &'static C10, v6: &'static mut C17, v7: &'static mut C7);
q!(Q58, v0: &'static C20, v1: &'static C22, v2: &'static C17, v3: &'static mut C21, v4: &'static C13, v5: &'static C3, v6: &'static C19, v7: EcsIds);
q!(Q59, v0: &'static C1, v1: EcsIds, v2: &'static C12, v3: &'static C16, v4: &'static mut C23, v5: &'static mut C20, v6: &'static C19, v7: &'static C10);
q!(Q60, v0: &'static C1, v1: &'static C8, v2: &'static mut C10, v3: &'static C7, v4: &'static C20, v5: &'static C4, v6: &'static C18, v7: &'static C0, v8: &'static mut C5);
q!(Q61, v0: EcsIds, v1: &'static C12, v2: &'static C20, v3: &'static C8, v4: &'static C23, v5: &'static mut C0, v6: &'static mut C16, v7: &'static C21, v8: &'static C19);
q!(Q62, v0: &'static mut C5, v1: EcsIds, v2: &'static C16, v3: &'static mut C23, v4: &'static C20, v5: &'static C3, v6: &'static C17, v7: &'static C9, v8: &'static C0);
q!(Q63, v0: &'static C6, v1: &'static C20, v2: &'static mut C11, v3: &'static C14, v4: &'static mut C5, v5: &'static C8, v6: &'static C19, v7: &'static C4, v8: &'static C18, v9: &'static mut C10);
q!(Q64, v0: &'static mut C6, v1: EcsIds, v2: &'static C13, v3: &'static mut C16, v4: &'static mut C7, v5: &'static mut C4, v6: &'static C17, v7: &'static mut C9, v8: &'static C22, v9: &'static mut C23);
q!(Q65, v0: &'static mut C3, v1: &'static mut C21, v2: &'static C2, v3: &'static mut C23, v4: &'static C11, v5: &'static C9, v6: &'static mut C7, v7: &'static C20, v8: &'static mut C19, v9: &'static mut C14);
q!(Q66, v0: &'static C15, v1: &'static C14, v2: EcsIds, v3: &'static mut C23, v4: &'static mut C10, v5: &'static mut C3, v6: &'static C8, v7: &'static C18, v8: &'static C12, v9: &'static C19);
q!(Q67, v0: &'static mut C22, v1: &'static C13, v2: &'static mut C20, v3: &'static C0, v4: &'static mut C17, v5: &'static mut C15, v6: &'static mut C4, v7: &'static C14, v8: &'static mut C7, v9: &'static mut C10);

pub static QUERIES: [Query; 68] = [Q0, Q1, Q2, Q3, Q4, Q5, Q6, Q7, Q8, Q9, Q10, Q11, Q12, Q13, Q14, Q15, Q16, Q17, Q18, Q19, Q20, Q21, Q22, Q23, Q24, Q25, Q26, Q27, Q28, Q29, Q30, Q31, Q32, Q33, Q34, Q35, Q36, Q37, Q38, Q39, Q40, Q41, Q42, Q43, Q44, Q45, Q46, Q47, Q48, Q49, Q50, Q51, Q52, Q53, Q54, Q55, Q56, Q57, Q58, Q59, Q60, Q61, Q62, Q63, Q64, Q65, Q66, Q67];
