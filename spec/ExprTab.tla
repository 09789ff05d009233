------------------------------ MODULE ExprTab ------------------------------
(* Values of the transcendental functions at a few points, and the constants,  *)
(* as doubles: written by tools/exptab.py.                                     *)
Tab1 == [acos |-> <<<<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<64, 9, 33, 251, 84, 68, 45, 24>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<64, 3, 89, 210, 111, 147, 182, 195>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<63, 251, 35, 83, 21, 198, 128, 220>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 245, 23, 0, 224, 193, 75, 37>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 240, 193, 82, 56, 45, 115, 102>>>>,
        <<<<63, 238, 0, 0, 0, 0, 0, 0>>, <<63, 214, 191, 56, 145, 100, 33, 66>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>>>>>>,
    acosh |-> <<<<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>>>>,
        <<<<63, 244, 0, 0, 0, 0, 0, 0>>, <<63, 230, 46, 66, 254, 250, 57, 239>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 238, 204, 44, 174, 197, 22, 10>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 245, 18, 66, 113, 152, 4, 53>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<63, 252, 52, 54, 97, 121, 212, 39>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<64, 7, 242, 30, 209, 206, 5, 212>>>>,
        <<<<64, 143, 64, 0, 0, 0, 0, 0>>, <<64, 30, 103, 82, 232, 168, 78, 212>>>>>>,
    asin |-> <<<<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<191, 249, 33, 251, 84, 68, 45, 24>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<191, 235, 35, 83, 21, 198, 128, 220>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<191, 192, 10, 190, 12, 18, 158, 30>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 208, 43, 233, 206, 11, 135, 205>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 224, 193, 82, 56, 45, 115, 102>>>>,
        <<<<63, 238, 0, 0, 0, 0, 0, 0>>, <<63, 243, 114, 45, 47, 235, 36, 200>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 249, 33, 251, 84, 68, 45, 24>>>>>>,
    asinh |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<191, 250, 91, 15, 11, 233, 220, 246>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<191, 236, 52, 54, 97, 121, 212, 39>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<191, 230, 46, 66, 254, 250, 57, 239>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<191, 191, 234, 208, 182, 153, 105, 115>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 207, 172, 251, 35, 153, 230, 55>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 222, 204, 44, 174, 197, 22, 10>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 236, 52, 54, 97, 121, 212, 39>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 243, 29, 192, 9, 11, 99, 216>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 247, 25, 33, 131, 19, 208, 135>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<63, 254, 80, 147, 186, 164, 141, 21>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<64, 7, 252, 92, 80, 109, 43, 219>>>>>>,
    atan |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<191, 243, 11, 109, 121, 106, 77, 168>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<191, 233, 33, 251, 84, 68, 45, 24>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<191, 228, 151, 143, 163, 38, 158, 225>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<191, 191, 213, 186, 154, 172, 47, 110>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 207, 91, 117, 249, 44, 128, 221>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 221, 172, 103, 5, 97, 187, 79>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 233, 33, 251, 84, 68, 45, 24>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 239, 115, 11, 210, 129, 246, 155>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 241, 182, 225, 146, 235, 190, 68>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<63, 244, 91, 84, 131, 115, 81, 160>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<63, 247, 137, 189, 44, 22, 0, 84>>>>>>,
    atanh |-> <<<<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<191, 239, 34, 114, 174, 50, 90, 87>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<191, 192, 21, 137, 28, 158, 174, 247>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 208, 88, 174, 250, 129, 20, 82>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 225, 147, 234, 122, 173, 3, 11>>>>,
        <<<<63, 238, 0, 0, 0, 0, 0, 0>>, <<63, 251, 120, 206, 72, 145, 43, 90>>>>>>,
    cbrt |-> <<<<<<63, 176, 0, 0, 0, 0, 0, 0>>, <<63, 217, 101, 254, 165, 61, 110, 61>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 233, 101, 254, 165, 61, 110, 61>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 240, 0, 0, 0, 0, 0, 0>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 242, 80, 191, 225, 176, 130, 245>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 244, 40, 162, 249, 141, 114, 139>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<63, 247, 19, 116, 73, 18, 62, 246>>>>,
        <<<<64, 30, 0, 0, 0, 0, 0, 0>>, <<63, 255, 81, 166, 32, 55, 233, 85>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<64, 1, 60, 72, 65, 56, 112, 79>>>>,
        <<<<64, 89, 0, 0, 0, 0, 0, 0>>, <<64, 18, 144, 252, 169, 199, 97, 248>>>>,
        <<<<65, 46, 132, 128, 0, 0, 0, 0>>, <<64, 89, 0, 0, 0, 0, 0, 0>>>>,
        <<<<64, 59, 0, 0, 0, 0, 0, 0>>, <<64, 8, 0, 0, 0, 0, 0, 0>>>>>>,
    cos |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<191, 233, 162, 247, 239, 133, 139, 125>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<63, 225, 74, 40, 15, 181, 6, 140>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<63, 231, 105, 254, 198, 85, 33, 31>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<63, 239, 192, 21, 82, 125, 91, 211>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 239, 1, 84, 159, 125, 238, 161>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 236, 21, 40, 6, 91, 125, 80>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 225, 74, 40, 15, 181, 6, 140>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 178, 27, 213, 79, 197, 249, 167>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<191, 218, 162, 38, 87, 83, 114, 5>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<191, 239, 207, 233, 9, 215, 247, 248>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<191, 234, 217, 172, 137, 12, 107, 31>>>>>>,
    cosh |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<64, 24, 135, 118, 228, 179, 10, 163>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<63, 248, 176, 117, 81, 217, 245, 80>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<63, 244, 183, 5, 209, 229, 214, 168>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<63, 240, 32, 10, 172, 22, 219, 111>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 240, 128, 171, 5, 202, 97, 70>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 242, 10, 193, 134, 42, 232, 208>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 248, 176, 117, 81, 217, 245, 80>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<64, 2, 209, 188, 33, 226, 32, 34>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<64, 14, 24, 250, 13, 242, 217, 188>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<64, 41, 212, 64, 210, 195, 162, 19>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<64, 197, 130, 157, 208, 83, 113, 45>>>>>>,
    erf |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<191, 239, 252, 170, 143, 76, 155, 234>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<191, 234, 247, 103, 167, 65, 8, 139>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<191, 230, 193, 201, 117, 157, 14, 95>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<191, 193, 245, 225, 163, 92, 59, 137>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 209, 175, 84, 226, 50, 214, 9>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 224, 167, 239, 92, 24, 237, 210>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 234, 247, 103, 167, 65, 8, 139>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 238, 234, 85, 87, 19, 122, 224>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 239, 217, 174, 20, 39, 149, 227>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<63, 239, 255, 246, 249, 246, 126, 85>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<63, 240, 0, 0, 0, 0, 0, 0>>>>>>,
    erfc |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<63, 255, 254, 85, 71, 166, 77, 245>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<63, 253, 123, 179, 211, 160, 132, 69>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<63, 251, 96, 228, 186, 206, 135, 48>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<63, 242, 62, 188, 52, 107, 135, 113>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 231, 40, 85, 142, 230, 148, 252>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 222, 176, 33, 71, 206, 36, 92>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 196, 34, 97, 98, 251, 221, 213>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 161, 90, 170, 142, 200, 82, 5>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 115, 40, 245, 236, 53, 14, 103>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<62, 210, 12, 19, 3, 85, 15, 14>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<54, 167, 216, 167, 242, 168, 162, 208>>>>>>,
    exp |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<63, 181, 3, 133, 192, 148, 244, 37>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<63, 215, 139, 86, 54, 44, 239, 56>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<63, 222, 59, 64, 235, 239, 205, 126>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<63, 236, 61, 106, 36, 237, 130, 34>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 244, 139, 94, 60, 62, 129, 134>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 250, 97, 41, 142, 30, 6, 156>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<64, 5, 191, 10, 139, 20, 87, 105>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<64, 17, 237, 63, 230, 79, 197, 65>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<64, 29, 142, 100, 184, 212, 221, 174>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<64, 57, 202, 83, 183, 129, 17, 75>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<64, 213, 130, 157, 207, 149, 5, 96>>>>>>,
    expm1 |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<191, 237, 95, 143, 71, 237, 97, 123>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<191, 228, 58, 84, 228, 233, 136, 100>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<191, 224, 226, 95, 138, 8, 25, 65>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<191, 190, 20, 174, 216, 147, 238, 244>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 210, 45, 120, 240, 250, 6, 26>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 228, 194, 83, 28, 60, 13, 56>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 251, 126, 21, 22, 40, 174, 211>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<64, 11, 218, 127, 204, 159, 138, 131>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<64, 25, 142, 100, 184, 212, 221, 174>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<64, 56, 202, 83, 183, 129, 17, 75>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<64, 213, 130, 93, 207, 149, 5, 96>>>>>>,
    ftom |-> <<<<<<64, 123, 128, 0, 0, 0, 0, 0>>, <<64, 81, 64, 0, 0, 0, 0, 0>>>>,
        <<<<64, 107, 128, 0, 0, 0, 0, 0>>, <<64, 76, 128, 0, 0, 0, 0, 0>>>>,
        <<<<64, 143, 64, 0, 0, 0, 0, 0>>, <<64, 84, 205, 163, 88, 152, 215, 156>>>>,
        <<<<64, 112, 88, 0, 0, 0, 0, 0>>, <<64, 77, 254, 239, 170, 227, 116, 24>>>>,
        <<<<64, 32, 128, 0, 0, 0, 0, 0>>, <<63, 196, 5, 86, 64, 172, 114, 38>>>>>>,
    j0 |-> <<<<<<63, 176, 0, 0, 0, 0, 0, 0>>, <<63, 239, 248, 0, 127, 252, 113, 213>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 238, 7, 241, 213, 76, 63, 52>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 232, 124, 127, 219, 215, 184, 240>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 224, 96, 228, 108, 233, 101, 27>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 204, 168, 115, 251, 36, 206, 248>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<191, 208, 164, 176, 244, 100, 35, 146>>>>,
        <<<<64, 30, 0, 0, 0, 0, 0, 0>>, <<63, 209, 11, 181, 126, 14, 86, 230>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<191, 207, 122, 210, 184, 158, 30, 84>>>>>>,
    j1 |-> <<<<<<63, 176, 0, 0, 0, 0, 0, 0>>, <<63, 159, 252, 0, 42, 169, 199, 31>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 207, 2, 167, 31, 72, 112, 215>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 220, 41, 201, 238, 151, 12, 108>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 225, 218, 157, 169, 214, 252, 129>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 226, 116, 135, 149, 131, 113, 240>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<63, 213, 179, 36, 88, 146, 56, 208>>>>,
        <<<<64, 30, 0, 0, 0, 0, 0, 0>>, <<63, 193, 79, 210, 10, 165, 39, 58>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<63, 166, 66, 15, 78, 32, 9, 17>>>>>>,
    lgamma |-> <<<<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 226, 80, 208, 72, 231, 161, 189>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<191, 190, 235, 149, 176, 148, 193, 145>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<63, 230, 46, 66, 254, 250, 57, 239>>>>,
        <<<<64, 17, 0, 0, 0, 0, 0, 0>>, <<64, 0, 234, 104, 100, 193, 153, 148>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<64, 41, 154, 137, 33, 167, 247, 207>>>>,
        <<<<64, 89, 0, 0, 0, 0, 0, 0>>, <<64, 118, 114, 37, 180, 135, 148, 98>>>>>>,
    log |-> <<<<<<63, 176, 0, 0, 0, 0, 0, 0>>, <<192, 6, 46, 66, 254, 250, 57, 239>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<191, 230, 46, 66, 254, 250, 57, 239>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 217, 243, 35, 236, 191, 152, 76>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 230, 46, 66, 254, 250, 57, 239>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<63, 241, 147, 234, 122, 173, 3, 11>>>>,
        <<<<64, 30, 0, 0, 0, 0, 0, 0>>, <<64, 0, 30, 133, 121, 142, 185, 163>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<64, 2, 107, 177, 187, 181, 85, 22>>>>,
        <<<<64, 89, 0, 0, 0, 0, 0, 0>>, <<64, 18, 107, 177, 187, 181, 85, 22>>>>,
        <<<<65, 46, 132, 128, 0, 0, 0, 0>>, <<64, 43, 161, 138, 153, 143, 255, 160>>>>>>,
    log10 |-> <<<<<<63, 176, 0, 0, 0, 0, 0, 0>>, <<191, 243, 68, 19, 80, 159, 121, 255>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<191, 211, 68, 19, 80, 159, 121, 255>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 198, 138, 40, 139, 96, 183, 252>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 211, 68, 19, 80, 159, 121, 255>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<63, 222, 137, 39, 150, 79, 213, 253>>>>,
        <<<<64, 30, 0, 0, 0, 0, 0, 0>>, <<63, 236, 0, 128, 122, 136, 113, 0>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<63, 240, 0, 0, 0, 0, 0, 0>>>>,
        <<<<64, 89, 0, 0, 0, 0, 0, 0>>, <<64, 0, 0, 0, 0, 0, 0, 0>>>>,
        <<<<65, 46, 132, 128, 0, 0, 0, 0>>, <<64, 24, 0, 0, 0, 0, 0, 0>>>>>>,
    mtof |-> <<<<<<64, 81, 64, 0, 0, 0, 0, 0>>, <<64, 123, 128, 0, 0, 0, 0, 0>>>>,
        <<<<64, 78, 0, 0, 0, 0, 0, 0>>, <<64, 112, 90, 2, 80, 194, 185, 86>>>>,
        <<<<0, 0, 0, 0, 0, 0, 0, 0>>, <<64, 32, 90, 2, 80, 194, 185, 86>>>>,
        <<<<64, 84, 64, 0, 0, 0, 0, 0>>, <<64, 139, 128, 0, 0, 0, 0, 0>>>>,
        <<<<64, 95, 192, 0, 0, 0, 0, 0>>, <<64, 200, 127, 237, 78, 71, 173, 255>>>>,
        <<<<64, 78, 64, 0, 0, 0, 0, 0>>, <<64, 112, 212, 171, 33, 2, 99, 97>>>>>>,
    sin |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<191, 227, 38, 175, 13, 207, 202, 177>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<191, 234, 237, 84, 143, 9, 12, 238>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<191, 229, 207, 252, 22, 191, 143, 13>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<191, 191, 234, 174, 238, 134, 238, 54>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 207, 170, 238, 212, 243, 21, 119>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 222, 174, 232, 116, 75, 5, 240>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 234, 237, 84, 143, 9, 12, 238>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 239, 235, 122, 155, 44, 109, 139>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 237, 24, 246, 234, 209, 180, 70>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<191, 187, 178, 173, 36, 100, 164, 140>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<191, 225, 104, 158, 245, 243, 79, 82>>>>>>,
    sinh |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<192, 24, 51, 104, 205, 176, 182, 211>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<191, 242, 205, 159, 196, 78, 185, 130>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<191, 234, 80, 107, 45, 211, 198, 144>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<191, 192, 10, 172, 205, 0, 210, 241>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 208, 42, 204, 217, 208, 129, 2>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 224, 172, 208, 15, 230, 59, 151>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 242, 205, 159, 196, 78, 185, 130>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<64, 1, 8, 195, 170, 189, 106, 96>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<64, 13, 3, 207, 99, 182, 225, 159>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<64, 41, 192, 102, 156, 62, 128, 131>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<64, 197, 130, 157, 206, 214, 153, 146>>>>>>,
    sqrt |-> <<<<<<63, 176, 0, 0, 0, 0, 0, 0>>, <<63, 208, 0, 0, 0, 0, 0, 0>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 230, 160, 158, 102, 127, 59, 205>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 240, 0, 0, 0, 0, 0, 0>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 243, 152, 142, 20, 9, 33, 46>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 246, 160, 158, 102, 127, 59, 205>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<63, 251, 182, 122, 232, 88, 76, 170>>>>,
        <<<<64, 30, 0, 0, 0, 0, 0, 0>>, <<64, 5, 232, 173, 210, 54, 165, 143>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<64, 9, 76, 88, 58, 218, 91, 83>>>>,
        <<<<64, 89, 0, 0, 0, 0, 0, 0>>, <<64, 36, 0, 0, 0, 0, 0, 0>>>>,
        <<<<65, 46, 132, 128, 0, 0, 0, 0>>, <<64, 143, 64, 0, 0, 0, 0, 0>>>>>>,
    tan |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<63, 231, 231, 155, 78, 0, 187, 21>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<191, 248, 235, 36, 92, 190, 227, 166>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<191, 237, 207, 163, 97, 16, 238, 236>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<191, 192, 21, 119, 175, 21, 17, 165>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 208, 87, 133, 164, 60, 76, 86>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 225, 123, 79, 91, 243, 71, 74>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 248, 235, 36, 92, 190, 227, 166>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<64, 44, 51, 237, 80, 184, 135, 119>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<192, 1, 122, 246, 46, 9, 80, 248>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<63, 187, 220, 139, 244, 69, 147, 108>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<63, 228, 191, 95, 52, 190, 55, 130>>>>>>,
    tanh |-> <<<<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<191, 239, 146, 88, 38, 10, 113, 194>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<191, 232, 94, 250, 181, 20, 243, 148>>>>,
        <<<<191, 232, 0, 0, 0, 0, 0, 0>>, <<191, 228, 83, 35, 229, 82, 242, 40>>>>,
        <<<<191, 192, 0, 0, 0, 0, 0, 0>>, <<191, 191, 213, 153, 43, 196, 184, 53>>>>,
        <<<<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 207, 89, 126, 166, 154, 28, 134>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 221, 147, 83, 215, 86, 138, 243>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 232, 94, 250, 181, 20, 243, 148>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 236, 246, 249, 120, 109, 245, 119>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 238, 217, 80, 94, 27, 195, 212>>>>,
        <<<<64, 10, 0, 0, 0, 0, 0, 0>>, <<63, 239, 231, 103, 149, 211, 83, 160>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<63, 239, 255, 255, 253, 201, 111, 53>>>>>>,
    y0 |-> <<<<<<63, 176, 0, 0, 0, 0, 0, 0>>, <<191, 253, 98, 48, 192, 23, 232, 193>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<191, 220, 114, 254, 179, 183, 184, 162>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<63, 182, 152, 2, 38, 243, 88, 223>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 216, 122, 11, 13, 6, 131, 104>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 224, 84, 255, 92, 214, 140, 141>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<63, 216, 30, 79, 129, 32, 36, 42>>>>,
        <<<<64, 30, 0, 0, 0, 0, 0, 0>>, <<63, 190, 8, 62, 87, 100, 145, 140>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<63, 172, 128, 238, 101, 160, 92, 89>>>>>>,
    y1 |-> <<<<<<63, 176, 0, 0, 0, 0, 0, 0>>, <<192, 36, 129, 175, 12, 41, 138, 163>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<191, 247, 139, 38, 162, 183, 196, 223>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<191, 232, 255, 178, 7, 214, 107, 148>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<191, 218, 99, 67, 185, 45, 139, 15>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<191, 187, 102, 122, 57, 20, 102, 71>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<63, 212, 199, 119, 61, 21, 4, 98>>>>,
        <<<<64, 30, 0, 0, 0, 0, 0, 0>>, <<191, 208, 149, 143, 191, 127, 240, 163>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<63, 207, 223, 188, 199, 149, 143, 60>>>>>>]
Tab2 == [atan2 |-> <<<<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 221, 172, 103, 5, 97, 187, 79>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<64, 0, 0, 0, 0, 0, 0, 0>>, <<191, 221, 172, 103, 5, 97, 187, 79>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<192, 0, 0, 0, 0, 0, 0, 0>>, <<64, 5, 108, 110, 115, 151, 245, 174>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<192, 0, 0, 0, 0, 0, 0, 0>>, <<192, 5, 108, 110, 115, 151, 245, 174>>>>,
        <<<<64, 4, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<63, 249, 33, 251, 84, 68, 45, 24>>>>,
        <<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<191, 249, 33, 251, 84, 68, 45, 24>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 241, 182, 225, 146, 235, 190, 68>>>>>>,
    ftom |-> <<<<<<64, 123, 0, 0, 0, 0, 0, 0>>, <<64, 123, 0, 0, 0, 0, 0, 0>>, <<64, 81, 64, 0, 0, 0, 0, 0>>>>,
        <<<<64, 89, 0, 0, 0, 0, 0, 0>>, <<64, 121, 240, 0, 0, 0, 0, 0>>, <<64, 70, 46, 107, 197, 209, 39, 237>>>>,
        <<<<64, 143, 64, 0, 0, 0, 0, 0>>, <<64, 123, 0, 0, 0, 0, 0, 0>>, <<64, 84, 225, 247, 254, 158, 253, 85>>>>>>,
    hypot |-> <<<<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<64, 0, 0, 0, 0, 0, 0, 0>>, <<64, 1, 227, 119, 155, 151, 244, 168>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<64, 0, 0, 0, 0, 0, 0, 0>>, <<64, 1, 227, 119, 155, 151, 244, 168>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<192, 0, 0, 0, 0, 0, 0, 0>>, <<64, 1, 227, 119, 155, 151, 244, 168>>>>,
        <<<<191, 240, 0, 0, 0, 0, 0, 0>>, <<192, 0, 0, 0, 0, 0, 0, 0>>, <<64, 1, 227, 119, 155, 151, 244, 168>>>>,
        <<<<64, 4, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<64, 4, 0, 0, 0, 0, 0, 0>>>>,
        <<<<192, 4, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<64, 4, 0, 0, 0, 0, 0, 0>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 225, 227, 119, 155, 151, 244, 168>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<64, 0, 0, 0, 0, 0, 0, 0>>, <<64, 1, 227, 119, 155, 151, 244, 168>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 224, 0, 0, 0, 0, 0, 0>>, <<64, 0, 126, 15, 102, 175, 237, 7>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<191, 248, 0, 0, 0, 0, 0, 0>>, <<63, 249, 76, 88, 58, 218, 91, 83>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<63, 208, 0, 0, 0, 0, 0, 0>>, <<64, 36, 1, 153, 137, 56, 155, 48>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<64, 8, 0, 0, 0, 0, 0, 0>>, <<64, 16, 248, 118, 204, 223, 108, 217>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<64, 4, 0, 0, 0, 0, 0, 0>>, <<64, 7, 82, 229, 13, 179, 163, 162>>>>>>,
    jn |-> <<<<<<0, 0, 0, 0, 0, 0, 0, 0>>, <<64, 4, 0, 0, 0, 0, 0, 0>>, <<191, 168, 197, 194, 35, 44, 255, 60>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<64, 4, 0, 0, 0, 0, 0, 0>>, <<63, 223, 208, 99, 200, 71, 149, 255>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<64, 4, 0, 0, 0, 0, 0, 0>>, <<63, 220, 140, 59, 75, 5, 75, 26>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<64, 30, 0, 0, 0, 0, 0, 0>>, <<191, 208, 132, 17, 235, 162, 172, 247>>>>,
        <<<<64, 20, 0, 0, 0, 0, 0, 0>>, <<63, 248, 0, 0, 0, 0, 0, 0>>, <<63, 93, 123, 82, 105, 31, 30, 110>>>>>>,
    mtof |-> <<<<<<64, 81, 64, 0, 0, 0, 0, 0>>, <<64, 123, 0, 0, 0, 0, 0, 0>>, <<64, 123, 0, 0, 0, 0, 0, 0>>>>,
        <<<<64, 78, 0, 0, 0, 0, 0, 0>>, <<64, 121, 240, 0, 0, 0, 0, 0>>, <<64, 110, 216, 85, 210, 134, 151, 203>>>>,
        <<<<64, 84, 64, 0, 0, 0, 0, 0>>, <<64, 89, 0, 0, 0, 0, 0, 0>>, <<64, 105, 0, 0, 0, 0, 0, 0>>>>>>,
    pow |-> <<<<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 240, 0, 0, 0, 0, 0, 0>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<63, 224, 0, 0, 0, 0, 0, 0>>, <<63, 246, 160, 158, 102, 127, 59, 205>>>>,
        <<<<63, 224, 0, 0, 0, 0, 0, 0>>, <<191, 248, 0, 0, 0, 0, 0, 0>>, <<64, 6, 160, 158, 102, 127, 59, 205>>>>,
        <<<<64, 36, 0, 0, 0, 0, 0, 0>>, <<63, 208, 0, 0, 0, 0, 0, 0>>, <<63, 252, 115, 213, 28, 84, 71, 14>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<64, 8, 0, 0, 0, 0, 0, 0>>, <<64, 59, 0, 0, 0, 0, 0, 0>>>>,
        <<<<63, 248, 0, 0, 0, 0, 0, 0>>, <<64, 4, 0, 0, 0, 0, 0, 0>>, <<64, 6, 11, 159, 214, 138, 69, 84>>>>>>,
    yn |-> <<<<<<0, 0, 0, 0, 0, 0, 0, 0>>, <<64, 4, 0, 0, 0, 0, 0, 0>>, <<63, 223, 224, 98, 128, 105, 225, 93>>>>,
        <<<<63, 240, 0, 0, 0, 0, 0, 0>>, <<64, 4, 0, 0, 0, 0, 0, 0>>, <<63, 194, 173, 114, 15, 58, 243, 169>>>>,
        <<<<64, 0, 0, 0, 0, 0, 0, 0>>, <<64, 4, 0, 0, 0, 0, 0, 0>>, <<191, 216, 103, 206, 122, 82, 76, 179>>>>,
        <<<<64, 8, 0, 0, 0, 0, 0, 0>>, <<64, 30, 0, 0, 0, 0, 0, 0>>, <<63, 196, 113, 76, 98, 37, 238, 159>>>>,
        <<<<64, 20, 0, 0, 0, 0, 0, 0>>, <<63, 248, 0, 0, 0, 0, 0, 0>>, <<192, 66, 152, 92, 6, 135, 104, 197>>>>>>]
Constants == [degtorad |-> <<63, 145, 223, 70, 162, 82, 157, 57>>,
    e |-> <<64, 5, 191, 10, 139, 20, 87, 105>>,
    halfpi |-> <<63, 249, 33, 251, 84, 68, 45, 24>>,
    lnten |-> <<64, 2, 107, 177, 187, 181, 85, 22>>,
    lntwo |-> <<63, 230, 46, 66, 254, 250, 57, 239>>,
    logtene |-> <<63, 219, 203, 123, 21, 38, 229, 14>>,
    logtwoe |-> <<63, 247, 21, 71, 101, 43, 130, 254>>,
    oneoverpi |-> <<63, 212, 95, 48, 109, 201, 200, 131>>,
    phi |-> <<63, 249, 227, 119, 155, 151, 244, 168>>,
    pi |-> <<64, 9, 33, 251, 84, 68, 45, 24>>,
    quarterpi |-> <<63, 233, 33, 251, 84, 68, 45, 24>>,
    radtodeg |-> <<64, 76, 165, 220, 26, 99, 193, 248>>,
    sqrthalf |-> <<63, 230, 160, 158, 102, 127, 59, 205>>,
    sqrttwo |-> <<63, 246, 160, 158, 102, 127, 59, 205>>,
    thirteenth_root_of_3 |-> <<63, 241, 105, 49, 200, 188, 52, 168>>,
    twelfth_root_of_2 |-> <<63, 240, 243, 143, 146, 217, 121, 99>>,
    twooverpi |-> <<63, 228, 95, 48, 109, 201, 200, 131>>,
    twopi |-> <<64, 25, 33, 251, 84, 68, 45, 24>>]
=============================================================================
