From bc70dc339eaca8859fb76fd8a33927e633d30eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 01/65] fix: ACN-inserted enumerated fields use the values
 given in the ACN encoding specification of their type

An ACN-inserted field (e.g. a choice determinant) that refers to an ENUMERATED type with
[encode-values] and explicit item values was encoded with the ASN.1 values instead, because only
the properties and not the item values of the referenced type's encoding specification were used.
---
 FrontEndAst/AcnCreateFromAntlr.fs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index e3a3ba7..34c33b1 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -936,13 +936,14 @@ let rec private mapAcnParamTypeToAcnAcnInsertedType (asn1:Asn1Ast.AstRoot) (lms:
         AcnNullType ({AcnNullType.acnProperties=acnProperties; acnAlignment=acnAlignment; Location = acnErrLoc; acnMinSizeInBits=acnMinSizeInBits; acnMaxSizeInBits = acnMaxSizeInBits; defaultValue="0"}), us
     | AcnPrmRefType (md,ts)->
         let asn1Type0 = Asn1Ast.GetBaseTypeByName md ts asn1
-        let baseProps =
+        let baseEncodingSpecs =
             acn.files |>
             List.collect(fun f -> f.modules) |>
             List.filter(fun acm -> acm.name.Value = md.Value) |>
             List.collect(fun acm -> acm.typeAssignments) |>
             List.filter(fun act -> act.name.Value = ts.Value) |>
-            List.collect(fun act -> act.typeEncodingSpec.acnProperties)
+            List.map(fun act -> act.typeEncodingSpec)
+        let baseProps = baseEncodingSpecs |> List.collect(fun spec -> spec.acnProperties)
         let props =
             match props with
             | []    -> baseProps
@@ -950,7 +951,7 @@ let rec private mapAcnParamTypeToAcnAcnInsertedType (asn1:Asn1Ast.AstRoot) (lms:
         match asn1Type0.Kind with
         | Asn1Ast.Enumerated nmItems    ->
             let cons =  asn1Type0.Constraints |> List.collect (fixConstraint asn1) |> List.map (ConstraintsMapping.getEnumConstraint asn1 asn1Type0)
-            let enumerated, ns = mergeEnumerated asn1 lms nmItems (None, ts.Location) (Some ts.Location) (Some {AcnTypeEncodingSpec.acnProperties = props; children = []; loc=ts.Location; comments = []; position=(ts.Location, ts.Location); antlrSubTree=None}) props cons [] (AcnPrmGetTypeDefinition (curPath,md.Value,ts.Value)) us
+            let enumerated, ns = mergeEnumerated asn1 lms nmItems (None, ts.Location) (Some ts.Location) (Some {AcnTypeEncodingSpec.acnProperties = props; children = (baseEncodingSpecs |> List.collect(fun spec -> spec.children)); loc=ts.Location; comments = []; position=(ts.Location, ts.Location); antlrSubTree=None}) props cons [] (AcnPrmGetTypeDefinition (curPath,md.Value,ts.Value)) us
             AcnReferenceToEnumerated({AcnReferenceToEnumerated.modName = md; tasName = ts; enumerated = enumerated; acnAlignment= acnAlignment}), ns
         | Asn1Ast.IA5String
         | Asn1Ast.NumericString  ->
-- 
2.43.0


From 6b789c2cdd58583bf5599d8cc5cc64f834f760d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 02/65] fix: efficient enumerations (-eee) encode the ACN
 values, not the ASN.1 values

With -eee the encoder/decoder used the look up table with the ASN.1 values even when the ACN
specification assigns different values to the items with [encode-values].
---
 BackendAst/Acn/AcnEnum.fs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index 0874148..b445af5 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -73,8 +73,10 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
             | Some intAcnFuncBdResult ->
                 let resultExpr, errCodes, auxiliaries =
                     intAcnFuncBdResult.resultExpr, intAcnFuncBdResult.errCodes, intAcnFuncBdResult.auxiliaries
+                // the look up table of the type holds the ASN.1 values. It cannot be used when the encoded (ACN) values are different
+                let encodesOtherValues = o.encodeValues && (o.items |> List.exists(fun it -> it.acnEncodeValue <> it.definitionValue))
                 let mainContent, localVariables =
-                    match r.args.isEnumEfficientEnabled o.items.Length  with
+                    match r.args.isEnumEfficientEnabled o.items.Length && not encodesOtherValues with
                     | false ->
                         let arrItems =
                             o.items |>
-- 
2.43.0


From 5b99ba79b6a5c77601a517fe7e132a5dff8de055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 03/65] fix: enumeration indexes follow the ascending order of
 the enumeration values (X.691, 14.1)

The index encoded for an ENUMERATED was the textual position of the item. For enumerations whose
items are not written in ascending order this violates X.691 and, with -eee (which uses a sorted
look up table), the very same specification produced a different encoding.
---
 BackendAst/DAstUPer.fs            | 3 ++-
 FrontEndAst/AcnCreateFromAntlr.fs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 92517dc..f6b536b 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -319,7 +319,8 @@ let createEnumeratedFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:C
         match r.args.isEnumEfficientEnabled o.items.Length with
         | false ->
             let items =
-                o.items |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
+                // X.691, 14.1: the enumeration indexes follow the ascending order of the enumeration values
+                o.items |> List.sortBy(fun itm -> itm.definitionValue) |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
             let nBits = (GetNumberOfBitsForNonNegativeInteger (nMax-nMin))
             let funcBodyContent = Enumerated pp td items nMin nMax nBits errCode.errCodeName nLastItemIndex sFirstItemName codec
             {UPERFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries = []}
diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 34c33b1..758b792 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -771,7 +771,9 @@ let private mergeEnumerated (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*La
         | false -> allocatedValuesToAllEnumItems items, false
         | true -> allocatedValuesToAllEnumItems items, true
     let uperSizeInBits = GetNumberOfBitsForNonNegativeInteger(BigInteger((Seq.length items) - 1))
-    let items = items0|> List.mapi mapItem
+    // X.691, 14.1: the enumeration indexes follow the ascending order of the enumeration values, not the textual order of the items
+    let sortedValues = items0 |> List.map(fun itm -> Asn1Ast.GetValueAsInt itm._value.Value asn1) |> List.sort
+    let items = items0|> List.map (fun itm -> mapItem (sortedValues |> List.findIndex ((=) (Asn1Ast.GetValueAsInt itm._value.Value asn1))) itm)
 
     let acnProperties =
         match acnErrLoc with
-- 
2.43.0


From fb638bab64cae0bc57428039e679eff3d39f8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 04/65] fix: ACN-inserted BOOLEAN fields honour true-value /
 false-value

The patterns given in the ACN specification of an inserted BOOLEAN field were counted in the size of
the message but the field itself was encoded and decoded as a single bit.
---
 BackendAst/Acn/AcnPrimitives.fs | 75 +++++++++++++++++----------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/BackendAst/Acn/AcnPrimitives.fs b/BackendAst/Acn/AcnPrimitives.fs
index 53c8fe4..2dca91a 100644
--- a/BackendAst/Acn/AcnPrimitives.fs
+++ b/BackendAst/Acn/AcnPrimitives.fs
@@ -286,51 +286,52 @@ let nestChildItems (lm:LanguageMacros) (codec:CommonTypes.Codec) children =
     DAstUtilFunctions.nestItems lm.isvalid.JoinItems2 children
 
 
+/// The encoding of a BOOLEAN value (an ASN.1 one or an ACN-inserted one), including its true-value / false-value patterns
+let private booleanFuncBody (lm:LanguageMacros) (codec:CommonTypes.Codec) (acnProperties:BooleanAcnProperties) (errCode:ErrorCode) (p:CodegenScope) =
+    let Boolean         = lm.uper.Boolean
+    let acnBoolean      = lm.acn.Boolean
+    let BooleanTrueFalse = lm.acn.BooleanTrueFalse
+
+    let pvalue, ptr, resultExpr =
+        match codec, lm.lg.decodingKind with
+        | Decode, Copy ->
+            let resExpr = p.accessPath.asIdentifier
+            resExpr, resExpr, Some resExpr
+        | _ -> lm.lg.getValue p.accessPath, lm.lg.getPointer p.accessPath, None
+    match acnProperties.encodingPattern with
+    | None ->
+        let pp, resultExpr = adaptArgument lm codec p
+        Boolean pp errCode.errCodeName codec, resultExpr
+    | Some (TrueValueEncoding pattern)  ->
+        let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrTrueValueAsByteArray = bitStringValueToByteArray pattern
+        let arrFalseValueAsByteArray = arrTrueValueAsByteArray |> Array.map (~~~)
+        let nSize = pattern.Value.Length
+        acnBoolean pvalue ptr true (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
+    | Some (FalseValueEncoding pattern) ->
+        let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrFalseValueAsByteArray = bitStringValueToByteArray pattern
+        let arrTrueValueAsByteArray = arrFalseValueAsByteArray |> Array.map (~~~)
+        let nSize = pattern.Value.Length
+        acnBoolean pvalue ptr false (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
+    | Some (TrueFalseValueEncoding(trPattern, fvPatten)) ->
+        let arrTrueBits = trPattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrFalseBits = fvPatten.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrTrueValueAsByteArray = bitStringValueToByteArray trPattern
+        let arrFalseValueAsByteArray = bitStringValueToByteArray fvPatten
+        let nSize = trPattern.Value.Length
+        BooleanTrueFalse pvalue ptr (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrTrueBits arrFalseBits errCode.errCodeName codec, resultExpr
+
 let createAcnBooleanFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec)  (typeId : ReferenceToType) (o:Asn1AcnAst.AcnBoolean)  (us:State)  =
     AcnPrimitiveFactory.createAcnOnlyPrimitive codec typeId us (fun errCode ->
         fun (acnArgs: (AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) (nestingScope: NestingScope) (p:CodegenScope) ->
-            let pp, resultExpr = adaptArgument lm codec p
-            let Boolean         = lm.uper.Boolean
-            let funcBodyContent = Boolean pp errCode.errCodeName codec
+            let funcBodyContent, resultExpr = booleanFuncBody lm codec o.acnProperties errCode p
             let icd = AcnPrimitiveFactory.buildPrimitiveIcdAux "BOOLEAN" "BOOLEAN" None o.acnMinSizeInBits o.acnMaxSizeInBits None
             Some {AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=[]; icdResult = Some icd})
 
 let createBooleanFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.Boolean) (typeDefinition:TypeDefinitionOrReference) (baseTypeUperFunc : AcnFunction option) (isValidFunc: IsValidFunction option) (us:State)  =
     let funcBody (errCode:ErrorCode) (acnArgs: (AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) (nestingScope: NestingScope) (p:CodegenScope) =
-        let Boolean         = lm.uper.Boolean
-        let acnBoolean      = lm.acn.Boolean
-        let BooleanTrueFalse = lm.acn.BooleanTrueFalse
-
-        let funcBodyContent, resultExpr=
-            let pvalue, ptr, resultExpr =
-                match codec, lm.lg.decodingKind with
-                | Decode, Copy ->
-                    let resExpr = p.accessPath.asIdentifier
-                    resExpr, resExpr, Some resExpr
-                | _ -> lm.lg.getValue p.accessPath, lm.lg.getPointer p.accessPath, None
-            match o.acnProperties.encodingPattern with
-            | None ->
-                let pp, resultExpr = adaptArgument lm codec p
-                Boolean pp errCode.errCodeName codec, resultExpr
-            | Some (TrueValueEncoding pattern)  ->
-                let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrTrueValueAsByteArray = bitStringValueToByteArray pattern
-                let arrFalseValueAsByteArray = arrTrueValueAsByteArray |> Array.map (~~~)
-                let nSize = pattern.Value.Length
-                acnBoolean pvalue ptr true (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
-            | Some (FalseValueEncoding pattern) ->
-                let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrFalseValueAsByteArray = bitStringValueToByteArray pattern
-                let arrTrueValueAsByteArray = arrFalseValueAsByteArray |> Array.map (~~~)
-                let nSize = pattern.Value.Length
-                acnBoolean pvalue ptr false (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
-            | Some (TrueFalseValueEncoding(trPattern, fvPatten)) ->
-                let arrTrueBits = trPattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrFalseBits = fvPatten.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrTrueValueAsByteArray = bitStringValueToByteArray trPattern
-                let arrFalseValueAsByteArray = bitStringValueToByteArray fvPatten
-                let nSize = trPattern.Value.Length
-                BooleanTrueFalse pvalue ptr (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrTrueBits arrFalseBits errCode.errCodeName codec, resultExpr
+        let funcBodyContent, resultExpr = booleanFuncBody lm codec o.acnProperties errCode p
         let icd = AcnPrimitiveFactory.buildPrimitiveIcdAux (getASN1Name t) (getASN1Name t) None o.acnMinSizeInBits o.acnMaxSizeInBits t.unitsOfMeasure
         let aux = lm.lg.generateBooleanAuxiliaries r ACN t o nestingScope p.accessPath codec
         Some {AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=aux; icdResult = Some icd}
-- 
2.43.0


From a5fa50abf0f2e2b7b11ff13627111230e4bc7085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 05/65] fix: deferred patching mixes up the ASN.1 and the ACN
 values of choice determinants

With -acnDeferred the decoder compared the ASN.1 value of the decoded enumerated determinant with
the ACN encoded values of the items, and the fallback for absent consumers wrote the ASN.1 value of
the first item, so any determinant whose encoded values differ from its ASN.1 values was rejected.
---
 BackendAst/Acn/AcnChoice.fs | 6 ++++--
 StgC/LangGeneric_c.fs       | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/BackendAst/Acn/AcnChoice.fs b/BackendAst/Acn/AcnChoice.fs
index 419a827..e43f442 100644
--- a/BackendAst/Acn/AcnChoice.fs
+++ b/BackendAst/Acn/AcnChoice.fs
@@ -184,10 +184,12 @@ let createChoiceFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedFiel
                         let enmItem = enm.enm.items |> List.find(fun itm -> itm.Name.Value = child.Name.Value)
                         // In deferred mode, the case discriminant is the deferred ref's
                         // .Value field (Asn1UInt) rather than the enum-typed determinant,
-                        // so case branches must use the ACN-encoded integer literal.
+                        // so case branches must use an integer literal. The decoded determinant
+                        // is copied from the enumerated value, hence it is the ASN.1 value of
+                        // the item (the ACN encoded one has already been mapped to it).
                         // In legacy mode keep the enum literal name (preserves byte-identity).
                         let enmCaseName =
-                            if r.args.acnDeferred && codec = Decode then enmItem.acnEncodeValue.ToString()
+                            if r.args.acnDeferred && codec = Decode then enmItem.definitionValue.ToString()
                             else lm.lg.getNamedItemBackendName (Some (getDefOrRef enm)) enmItem
                         Some (choiceChild_Enum (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) enmCaseName (lm.lg.presentWhenName (Some defOrRef) child) childContent_funcBody sChildName sChildTypeDef sChoiceTypeName sChildInitExpr codec)
                     | CEC_presWhen  ->
diff --git a/StgC/LangGeneric_c.fs b/StgC/LangGeneric_c.fs
index 7f06813..b61bbc8 100644
--- a/StgC/LangGeneric_c.fs
+++ b/StgC/LangGeneric_c.fs
@@ -847,7 +847,7 @@ type LangGeneric_c() =
             | Asn1AcnAst.AcnInsertedType.AcnBoolean _ -> "0"
             | Asn1AcnAst.AcnInsertedType.AcnReferenceToEnumerated enm ->
                 match enm.enumerated.items with
-                | firstItem :: _ -> this.getNamedItemBackendName None firstItem
+                | firstItem :: _ -> firstItem.acnEncodeValue.ToString()
                 | [] -> "0"
             | Asn1AcnAst.AcnInsertedType.AcnReferenceToIA5String _ -> "\"\""
             | _ -> "0"
-- 
2.43.0


From 2c0d7cd2f006bc28cc3d006f28d35b89e4a8d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 06/65] fix: BitStream_AppendPartialByte cleared the bits after
 the written ones instead of the written ones

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e350ec7..569213d 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -481,7 +481,7 @@ void BitStream_AppendPartialByte(BitStream* pBitStrm, byte v, byte nbits, flag n
 		pBitStrm->buf[pBitStrm->currentByte] &= mask1;
 		pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> totalBitsForNextByte);
 		bitstream_push_data_if_required(pBitStrm);
-		byte mask = (byte)~masksb[8 - totalBitsForNextByte];
+		byte mask = masksb[8 - totalBitsForNextByte];
 		pBitStrm->buf[pBitStrm->currentByte] &= mask;
 		pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << (8 - totalBitsForNextByte));
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From d843ed75fde756f0b879a830035800f8a5d319f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 07/65] fix: BitStream_AppendNBitZero skipped over stale bits
 and at most one streaming block

---
 asn1crt/asn1crt_encoding.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 569213d..e52627c 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -163,19 +163,12 @@ void BitStream_AppendBitZero(BitStream* pBitStrm)
 
 void BitStream_AppendNBitZero(BitStream* pBitStrm, int nbits)
 {
-	int totalBits = pBitStrm->currentBit + nbits;
-	int totalBytes = totalBits / 8;
-	pBitStrm->currentBit = totalBits % 8;
-	//pBitStrm->currentByte += totalBits / 8;
-	if (pBitStrm->currentByte + totalBytes <= pBitStrm->count) {
-		pBitStrm->currentByte += totalBytes;
-		bitstream_push_data_if_required(pBitStrm);
-	} else {
-		int extraBytes = pBitStrm->currentByte + totalBytes - pBitStrm->count;
-		pBitStrm->currentByte = pBitStrm->count;
-		bitstream_push_data_if_required(pBitStrm);
-		pBitStrm->currentByte = extraBytes;
+	while (nbits >= 8) {
+		BitStream_AppendByte(pBitStrm, 0, FALSE);
+		nbits -= 8;
 	}
+	if (nbits > 0)
+		BitStream_AppendPartialByte(pBitStrm, 0, (byte)nbits, FALSE);
 }
 
 void BitStream_AppendNBitOne(BitStream* pBitStrm, int nbits)
-- 
2.43.0


From 958076a492d55bedbd13a7262b097622689f0258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 08/65] fix: streaming: bits of the previous block leaked into
 the next one

---
 asn1crt/asn1crt_encoding.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e52627c..4064a67 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1787,6 +1787,8 @@ void bitstream_fetch_data_if_required(BitStream* pStrm) {
 void bitstream_push_data_if_required(BitStream* pStrm) {
 	if (pStrm->currentByte == pStrm->count && pStrm->pushDataPrm != NULL) {
 		pushData(pStrm, pStrm->pushDataPrm);
+		/* encoding functions rely on a zeroed buffer (see BitStream_Init) */
+		memset(pStrm->buf, 0x0, (size_t)pStrm->count);
 		pStrm->currentByte = 0;
 	}
 }
-- 
2.43.0


From ecf6c9e8fb5d05af9a8e7eea9e43459bc4a2c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 09/65] fix: BitStream_AppendByteArray refused or corrupted
 arrays that cross a streaming block

---
 asn1crt/asn1crt_encoding.c | 40 ++++++--------------------------------
 1 file changed, 6 insertions(+), 34 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 4064a67..f3fcaf8 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -309,43 +309,15 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
     //static byte  masks[] = { 0x80, 0x40, 0x20, 0x10, 0x08, 0x04, 0x02, 0x01 };
     //static byte masksb[] = { 0x00, 0x01, 0x03, 0x07, 0x0F, 0x1F, 0x3F, 0x7F, 0xFF };
 
-    int cb = pBitStrm->currentBit;
-    int ncb = 8 - cb;
-
-    byte mask = (byte)~masksb[ncb];
-    byte nmask = (byte)~mask;
     //if (pBitStrm->currentByte + (int)arr_len + (cb > 0 ? 1 : 0) >= pBitStrm->count)
-    if ( (pBitStrm->currentByte + arr_len)*8 + cb > pBitStrm->count*8)
+#ifndef ASN1SCC_STREAMING
+    if ( (pBitStrm->currentByte + arr_len)*8 + pBitStrm->currentBit > pBitStrm->count*8)
         return FALSE;
+#endif
 
-    if (arr_len> 0) {
-        byte v = arr[0];
-        pBitStrm->buf[pBitStrm->currentByte] &= mask;       //make zero right bits (i.e. the ones that will get the new value)
-        pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
-        bitstream_push_data_if_required(pBitStrm);
-
-        pBitStrm->buf[pBitStrm->currentByte] &= nmask;
-        pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
-    }
-
-    for (int i = 1; i < arr_len - 1; i++) {
-        byte v = arr[i];
-        byte v1 = (byte)(v >> cb);
-        byte v2 = (byte)(v << ncb);
-        pBitStrm->buf[pBitStrm->currentByte++] |= v1;  //shift right and then populate current byte
-        bitstream_push_data_if_required(pBitStrm);
-        pBitStrm->buf[pBitStrm->currentByte] |= v2;
-    }
-    if (arr_len - 1 > 0) {
-        byte v = arr[arr_len - 1];
-        pBitStrm->buf[pBitStrm->currentByte] &= mask;       //make zero right bits (i.e. the ones that will get the new value)
-        pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
-        bitstream_push_data_if_required(pBitStrm);
-
-        if (cb) {
-            pBitStrm->buf[pBitStrm->currentByte] &= nmask;
-            pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
-        }
+    for (int i = 0; i < arr_len; i++) {
+        if (!BitStream_AppendByte0(pBitStrm, arr[i]))
+            return FALSE;
     }
     return TRUE;
 }
-- 
2.43.0


From ed9a75228866ae376023d776eaad7ef5ee82ff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 10/65] fix: BitStream_ReadByte and BitStream_ReadByteArray at
 the end of a streaming block

---
 asn1crt/asn1crt_encoding.c | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index f3fcaf8..25ed05d 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -328,10 +328,7 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
     int cb = pBitStrm->currentBit;			//bit position in the current byte
 
     //check if the available bytes are enough
-	int requiredBytes = (cb > 0) ? 2 : 1;
-	int availableBytes = pBitStrm->count - pBitStrm->currentByte;
-
-	if (availableBytes < requiredBytes) {
+	if (pBitStrm->currentByte >= pBitStrm->count) {
 		return FALSE;
 	}
 
@@ -341,6 +338,9 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 	if (cb > 0) {
         // we need to read bits from the next byte
 		int ncb = 8 - cb;						
+		if (pBitStrm->currentByte >= pBitStrm->count) {
+			return FALSE;
+		}
 		*v |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> ncb);
 	}
 
@@ -351,24 +351,15 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 
 
 flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
-    int cb = pBitStrm->currentBit;
-    int ncb = 8 - cb;
-	byte* rb = &pBitStrm->buf[pBitStrm->currentByte];
-	byte* wb = arr;
-
 #ifndef ASN1SCC_STREAMING
-    if ( (pBitStrm->currentByte + arr_len)*8 + cb > pBitStrm->count*8)
+    if ( (pBitStrm->currentByte + arr_len)*8 + pBitStrm->currentBit > pBitStrm->count*8)
         return FALSE;
 #endif
 
     for (int i = 0; i < arr_len; i++) {
-		*wb = (byte)((*rb) << cb);
-		rb++;
-		bitstream_fetch_data_if_required(pBitStrm);
-		*wb |= (byte)((*rb) >> ncb);
-		wb++;
+		if (!BitStream_ReadByte(pBitStrm, &arr[i]))
+			return FALSE;
     }
-	pBitStrm->currentByte += arr_len;
     return TRUE;
 }
 
-- 
2.43.0


From 66229e4188f88a459bbccf7331223329eb85b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 11/65] fix: bits were read past the end of the data before the
 end was checked

---
 asn1crt/asn1crt_encoding.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 25ed05d..e9eaa10 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -222,6 +222,8 @@ void BitStream_AppendBit(BitStream* pBitStrm, flag v)
 
 flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 {
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
 	*v = pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 
 	if (pBitStrm->currentBit<7)
@@ -235,7 +237,7 @@ flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 }
 
 flag BitStream_PeekBit(BitStream* pBitStrm) {
-	return pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
+	return pBitStrm->currentByte < pBitStrm->count && (pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit]) != 0;
 }
 
 
@@ -453,6 +455,8 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 	int totalBits = cb + nbits;
 	int totalBitsForNextByte;
 
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
 	if (totalBits <= 8) {
 		*v = (byte)((pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBits)) & masksb[nbits]);
 		pBitStrm->currentBit += nbits;
@@ -466,6 +470,8 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 		totalBitsForNextByte = totalBits - 8;
 		*v = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << totalBitsForNextByte);
 		bitstream_fetch_data_if_required(pBitStrm);
+		if (pBitStrm->currentByte >= pBitStrm->count)
+			return FALSE;
 		*v |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBitsForNextByte));
 		*v &= masksb[nbits];
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From b63bbf8a360fad241d5164ebc20f562a445e26f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 12/65] fix: streaming: octets of an OCTET STRING that spans
 several blocks

---
 asn1crt/asn1crt_encoding.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e9eaa10..f36b93d 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1362,7 +1362,9 @@ flag BitStream_EncodeOctetString_no_length (BitStream* pBitStrm, const byte* arr
 				remainingBytesToSend :
 				pBitStrm->count - pBitStrm->currentByte;
 
-			memcpy(&pBitStrm->buf[pBitStrm->currentByte], arr, currentBatch);
+			if (currentBatch <= 0)
+				return FALSE;	// buffer is full and there is no way to empty it
+			memcpy(&pBitStrm->buf[pBitStrm->currentByte], &arr[nCount - remainingBytesToSend], currentBatch);
 			pBitStrm->currentByte += currentBatch;
 			bitstream_push_data_if_required(pBitStrm);
 			remainingBytesToSend -= currentBatch;
@@ -1403,7 +1405,9 @@ flag BitStream_DecodeOctetString_no_length(BitStream* pBitStrm, byte* arr, int n
                 remainingBytesToRead :
                 pBitStrm->count - pBitStrm->currentByte;
 
-            memcpy(arr, &pBitStrm->buf[pBitStrm->currentByte], currentBatch);
+            if (currentBatch <= 0)
+                return FALSE;	// no more data
+            memcpy(&arr[nCount - remainingBytesToRead], &pBitStrm->buf[pBitStrm->currentByte], currentBatch);
             pBitStrm->currentByte += currentBatch;
             bitstream_fetch_data_if_required(pBitStrm);
             remainingBytesToRead -= currentBatch;
-- 
2.43.0


From a364460b7254102969b890fd4ba6d20bbe9c96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 13/65] fix: truncated OCTET STRINGs were accepted

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index f36b93d..0517114 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1597,7 +1597,7 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 		*nCount = (int)nCountL;
 		ret = ret && (nCountL >= asn1SizeMin && nCountL <= asn1SizeMax);
 		if (ret) {
-			BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
+			ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
 		}
 	}
 	else {
-- 
2.43.0


From eea01acc63a742274f729326ff3095f2a6a2f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 14/65] fix: empty OCTET STRING and BIT STRING values were
 refused when SIZE reaches 65536

---
 asn1crt/asn1crt_encoding.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 0517114..a9109a3 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1546,7 +1546,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 				if (ret) {
 					nLengthTmp1 += (long)nRemainingItemsVar1;
 
-					if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+					if (nLengthTmp1 <= asn1SizeMax) {
 						*nCount = (int)nLengthTmp1;
 
 					}
@@ -1586,7 +1586,7 @@ flag BitStream_EncodeOctetString(BitStream* pBitStrm, const byte* arr, int nCoun
 flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, asn1SccSint asn1SizeMin, asn1SccSint asn1SizeMax) {
 	flag ret = TRUE;
 	if (asn1SizeMax < 65536) {
-		asn1SccSint nCountL;
+		asn1SccSint nCountL = 0;
 		if (asn1SizeMin < asn1SizeMax) {
 			ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCountL, asn1SizeMin, asn1SizeMax);
 		}
@@ -1734,7 +1734,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 					if (ret) {
 						nLengthTmp1 += (long)nRemainingItemsVar1;
 
-						if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+						if ((nLengthTmp1 >= asn1SizeMin) && (nLengthTmp1 <= asn1SizeMax)) {
 							*pCount = (int)nLengthTmp1;
 						} else {
 							ret = FALSE;  /*COVERAGE_IGNORE*/
-- 
2.43.0


From c74ce4d1219c14a587faa8896cc550b5b5ace736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 15/65] fix: REAL values close to zero were encoded or decoded
 wrongly, huge exponents took billions of steps

---
 asn1crt/asn1crt_encoding.c | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index a9109a3..4d58960 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1061,14 +1061,14 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 
 #if FP_WORD_SIZE==8
 	* exponent = (int)(((ll & ExpoBitMask) >> 52) - 1023 - 52);
-	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
 #else
 	*exponent = (int)(((ll & ExpoBitMask) >> 23) - 127 - 23);
-
-	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
 #endif
+	*mantissa = ll & MantBitMask;
+	if ((ll & ExpoBitMask) != 0)
+		(*mantissa) |= MantisaExtraBit;
+	else
+		(*exponent)++;		/* subnormal number: there is no hidden bit */
 }
 
 asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
@@ -1076,25 +1076,18 @@ asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
 #else
-	asn1Real ret = 1.0;
-	if (mantissa == 0)
-		return 0.0;
+	asn1Real ret = (asn1Real)mantissa;
 
-	if (exponent >= 0) {
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return (asn1Real)mantissa*ret;
+	/* stop as soon as the result cannot change anymore */
+	while (exponent > 0 && ret != 0.0 && ret != INFINITY) {
+		ret = ret * 2.0;
+		exponent--;
 	}
-	else {
-		exponent = -exponent;
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return ((asn1Real)mantissa) / ret;
+	while (exponent < 0 && ret != 0.0) {
+		ret = ret / 2.0;
+		exponent++;
 	}
+	return ret;
 #endif
 }
 
-- 
2.43.0


From 8efe916fef468cd19d09f41f0ae43d2f405bf5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 16/65] fix: -wordSize 4 lost the upper bits of the mantissa of
 REAL values

---
 asn1crt/asn1crt_encoding.c | 12 ++++++------
 asn1crt/asn1crt_encoding.h |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 4d58960..f61783d 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -682,12 +682,10 @@ int GetLengthInBytesOfUInt(asn1SccUint64 v)
 {
 	int ret = 0;
 	asn1SccUint32 v32 = (asn1SccUint32)v;
-#if WORD_SIZE==8
 	if (v>0xFFFFFFFF) {
 		ret = 4;
 		v32 = (asn1SccUint32)(v >> 32);
 	}
-#endif
 
 	if (v32<0x100)
 		return ret + 1;
@@ -1071,7 +1069,7 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 		(*exponent)++;		/* subnormal number: there is no hidden bit */
 }
 
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exponent)
 {
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
@@ -1166,8 +1164,10 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 
 
 	/* encode mantissa */
-	BitStream_AppendNBitZero(pBitStrm, nManLen * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(mantissa)));
-	BitStream_EncodeNonNegativeInteger(pBitStrm, mantissa);
+	while (nManLen > 0) {
+		nManLen--;
+		BitStream_AppendByte(pBitStrm, (byte)(mantissa >> (nManLen * 8)), FALSE);
+	}
 
 }
 
@@ -1225,7 +1225,7 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	int exponent;
 	flag expIsNegative = FALSE;
 	int expFactor = 1;
-	asn1SccUint N = 0;
+	asn1SccUint64 N = 0;
 	int i;
 
 	if (header & 0x40)
diff --git a/asn1crt/asn1crt_encoding.h b/asn1crt/asn1crt_encoding.h
index 2d8c174..abd7aff 100644
--- a/asn1crt/asn1crt_encoding.h
+++ b/asn1crt/asn1crt_encoding.h
@@ -85,7 +85,7 @@ flag BitStream_DecodeConstraintPosWholeNumberUInt32(BitStream* pBitStrm, uint32_
 int GetNumberOfBitsForNonNegativeInteger(asn1SccUint v);
 
 void CalculateMantissaAndExponent(asn1Real d, int* exp, asn1SccUint64* mantissa);
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exp);
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exp);
 
 int GetLengthInBytesOfSInt(asn1SccSint v);
 int GetLengthInBytesOfUInt(asn1SccUint64 v);
-- 
2.43.0


From 3e89458fc26c4d41078672fddc810ba029ddd9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 17/65] fix: integer overflows when decoding REAL values with
 scale factor or large exponent

---
 asn1crt/asn1crt_encoding.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index f61783d..06a4ebc 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1220,7 +1220,6 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	int sign = 1;
 	/*int base=2;*/
 	int F;
-	unsigned factor = 1;
 	int expLen;
 	int exponent;
 	flag expIsNegative = FALSE;
@@ -1240,7 +1239,6 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	}
 
 	F = (header & 0x0C) >> 2;
-	factor <<= F;
 
 	expLen = (header & 0x03) + 1;
 
@@ -1265,8 +1263,14 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	}
 
 
-	/*  *v = N*factor * pow(base,exp);*/
-	*v = GetDoubleByMantissaAndExp(N*factor, expFactor*exponent);
+	/* avoid overflows below; the value is infinite or zero anyway */
+	if (exponent > 0x00FFFFFF)
+		exponent = 0x00FFFFFF;
+	else if (exponent < -0x00FFFFFF)
+		exponent = -0x00FFFFFF;
+
+	/*  *v = N * pow(2,F) * pow(base,exp);*/
+	*v = GetDoubleByMantissaAndExp(N, expFactor*exponent + F);
 
 	if (sign<0)
 		*v = -(*v);
-- 
2.43.0


From 10718983c04d1cf5d6c8ed2be7c39a549de82daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 18/65] fix: OBJECT IDENTIFIER values below {2} with a second
 arc above 39 were refused and misread

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 4 ++--
 ADA_RTL2/src/adaasn1rtl.adb               | 7 +++++--
 asn1crt/asn1crt.c                         | 5 ++++-
 asn1crt/asn1crt_encoding_uper.c           | 4 ++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 98067da..8aca08c 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -618,8 +618,8 @@ is
            (bs, totalSize, si, Result);
          if Result.Success then
             val.Length     := 2;
-            val.values (1) := si / 40;
-            val.values (2) := si mod 40;
+            val.values (1) := (if si < 80 then si / 40 else 2);
+            val.values (2) := (if si < 80 then si mod 40 else si - 80);
 
             while Result.Success and totalSize > 0 and
               val.Length < OBJECT_IDENTIFIER_MAX_LENGTH
diff --git a/ADA_RTL2/src/adaasn1rtl.adb b/ADA_RTL2/src/adaasn1rtl.adb
index 855bc4c..f01a9e5 100644
--- a/ADA_RTL2/src/adaasn1rtl.adb
+++ b/ADA_RTL2/src/adaasn1rtl.adb
@@ -53,8 +53,11 @@ is
      (val : Asn1ObjectIdentifier) return Boolean
    is
    begin
-      return val.Length >= 2 and then val.values (1) <= 2
-        and then val.values (2) <= 39;
+      --  only the arcs below 0 and 1 are limited to 0..39 (X.690, 8.19.4)
+      return val.Length >= 2
+        and then ((val.values (1) < 2 and then val.values (2) <= 39)
+                  or else (val.values (1) = 2
+                           and then val.values (2) <= Asn1UInt'Last - 80));
    end ObjectIdentifier_isValid;
 
    function RelativeOID_isValid (val : Asn1ObjectIdentifier) return Boolean is
diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index ffab9eb..178b17b 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -116,7 +116,10 @@ void ObjectIdentifier_Init(Asn1ObjectIdentifier *pVal) {
 }
 
 flag ObjectIdentifier_isValid(const Asn1ObjectIdentifier *pVal) {
-	return (pVal->nCount >= 2) && (pVal->values[0] <= 2) && (pVal->values[1] <= 39);
+	/* only the arcs below 0 and 1 are limited to 0..39 (X.690, 8.19.4) */
+	return (pVal->nCount >= 2) && (pVal->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH) &&
+		((pVal->values[0] < 2 && pVal->values[1] <= 39) ||
+		 (pVal->values[0] == 2 && pVal->values[1] <= (asn1SccUint)-1 - 80));
 }
 
 flag RelativeOID_isValid(const Asn1ObjectIdentifier *pVal) {
diff --git a/asn1crt/asn1crt_encoding_uper.c b/asn1crt/asn1crt_encoding_uper.c
index e92b5a2..77b2f0b 100644
--- a/asn1crt/asn1crt_encoding_uper.c
+++ b/asn1crt/asn1crt_encoding_uper.c
@@ -127,8 +127,8 @@ flag ObjectIdentifier_uper_decode(BitStream* pBitStrm, Asn1ObjectIdentifier *pVa
 	if (!ObjectIdentifier_subidentifiers_uper_decode(pBitStrm, &totalSize, &si))
 		return FALSE;
 	pVal->nCount = 2;
-	pVal->values[0] = si / 40;
-	pVal->values[1] = si % 40;
+	pVal->values[0] = si < 80 ? si / 40 : 2;
+	pVal->values[1] = si < 80 ? si % 40 : si - 80;
 	while (totalSize > 0 && pVal->nCount < OBJECT_IDENTIFIER_MAX_LENGTH)
 	{
 		if (!ObjectIdentifier_subidentifiers_uper_decode(pBitStrm, &totalSize, &si))
-- 
2.43.0


From 76493c6caaeab88d25964be843f7078ccc081ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 19/65] fix: alignment to words: relative to the message in
 streaming mode, no abort at the end of the data

---
 asn1crt/asn1crt.h              |  3 ++
 asn1crt/asn1crt_encoding.c     |  4 +++
 asn1crt/asn1crt_encoding_acn.c | 54 +++++++++++++++-------------------
 3 files changed, 30 insertions(+), 31 deletions(-)

diff --git a/asn1crt/asn1crt.h b/asn1crt/asn1crt.h
index ecc5b7c..3361a2d 100644
--- a/asn1crt/asn1crt.h
+++ b/asn1crt/asn1crt.h
@@ -153,6 +153,9 @@ typedef struct BitStream_t {
 	Possible vallues 0..7, 0 is most significant
 	bit of current byte*/
 	int currentBit;
+	/* Number of bytes already pushed or consumed in streaming mode,
+	i.e. the position of buf[0] within the whole encoding */
+	long streamOffset;
 	//PushDataFnc pushData;
 	void* pushDataPrm;
 	//FetchDataFnc fetchData;
diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 06a4ebc..0df046b 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -66,6 +66,7 @@ void BitStream_Init(BitStream* pBitStrm, unsigned char* buf, long count)
 	memset(pBitStrm->buf, 0x0, (size_t)count);
 	pBitStrm->currentByte = 0;
 	pBitStrm->currentBit = 0;
+	pBitStrm->streamOffset = 0;
 	pBitStrm->pushDataPrm = NULL;
 	pBitStrm->fetchDataPrm = NULL;
 }
@@ -83,6 +84,7 @@ void BitStream_AttachBuffer(BitStream* pBitStrm, unsigned char* buf, long count)
 	pBitStrm->buf = buf;
 	pBitStrm->currentByte = 0;
 	pBitStrm->currentBit = 0;
+	pBitStrm->streamOffset = 0;
 	pBitStrm->pushDataPrm = NULL;
 	pBitStrm->fetchDataPrm = NULL;
 }
@@ -1748,6 +1750,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 #ifdef ASN1SCC_STREAMING
 void bitstream_fetch_data_if_required(BitStream* pStrm) {
 	if (pStrm->currentByte == pStrm->count && pStrm->fetchDataPrm != NULL) {
+		pStrm->streamOffset += pStrm->currentByte;
 		fetchData(pStrm, pStrm->fetchDataPrm);
 		pStrm->currentByte = 0;
 	}
@@ -1759,6 +1762,7 @@ void bitstream_push_data_if_required(BitStream* pStrm) {
 		pushData(pStrm, pStrm->pushDataPrm);
 		/* encoding functions rely on a zeroed buffer (see BitStream_Init) */
 		memset(pStrm->buf, 0x0, (size_t)pStrm->count);
+		pStrm->streamOffset += pStrm->currentByte;
 		pStrm->currentByte = 0;
 	}
 }
diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 4eaf6e9..625c5c7 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -10,11 +10,9 @@ static flag RequiresReverse(void)
 	return b[0] == 1;
 }
 
-void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
+static void Acn_AlignToNext(BitStream* pBitStrm, flag bEncode, int nBytes)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_BYTE -
-		pBitStrm->currentBit) & (NO_OF_BITS_IN_BYTE - 1));
-
+	long pos;
 	if (pBitStrm->currentBit != 0)
 	{
 		pBitStrm->currentBit = 0;
@@ -23,42 +21,36 @@ void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
 			bitstream_push_data_if_required(pBitStrm);
 		else
 			bitstream_fetch_data_if_required(pBitStrm);
-		CHECK_BIT_STREAM(pBitStrm);
 	}
+	/* in streaming mode the current byte is relative to the current block */
+	pos = pBitStrm->streamOffset + pBitStrm->currentByte;
+	for (; pos % nBytes != 0; pos++)
+	{
+		if (!bEncode && pBitStrm->currentByte >= pBitStrm->count)
+			break; /* no more data, reading the aligned field fails */
+		pBitStrm->currentByte++;
+		if (bEncode)
+			bitstream_push_data_if_required(pBitStrm);
+		else
+			bitstream_fetch_data_if_required(pBitStrm);
+	}
+	if (bEncode)
+		CHECK_BIT_STREAM(pBitStrm);
 }
 
-void Acn_AlignToNextWord(BitStream* pBitStrm, flag bEncode)
+void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT16 -
-		(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT16 - 1)) + pBitStrm->currentBit))
-		& (NO_OF_BITS_IN_INT16 - 1));
-
-	Acn_AlignToNextByte(pBitStrm, bEncode);
-	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT16 - 1)) / NO_OF_BYTES_IN_INT16) * NO_OF_BYTES_IN_INT16;
-
-	if (bEncode)
-		bitstream_push_data_if_required(pBitStrm);
-	else
-		bitstream_fetch_data_if_required(pBitStrm);
+	Acn_AlignToNext(pBitStrm, bEncode, 1);
+}
 
-	CHECK_BIT_STREAM(pBitStrm);
+void Acn_AlignToNextWord(BitStream* pBitStrm, flag bEncode)
+{
+	Acn_AlignToNext(pBitStrm, bEncode, NO_OF_BYTES_IN_INT16);
 }
 
 void Acn_AlignToNextDWord(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT32 -
-		(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT32 - 1)) + pBitStrm->currentBit))
-		& (NO_OF_BITS_IN_INT32 - 1));
-
-	Acn_AlignToNextByte(pBitStrm, bEncode);
-	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT32 - 1)) / NO_OF_BYTES_IN_INT32) * NO_OF_BYTES_IN_INT32;
-
-	if (bEncode)
-		bitstream_push_data_if_required(pBitStrm);
-	else
-		bitstream_fetch_data_if_required(pBitStrm);
-
-	CHECK_BIT_STREAM(pBitStrm);
+	Acn_AlignToNext(pBitStrm, bEncode, NO_OF_BYTES_IN_INT32);
 }
 
 /*ACN Integer functions*/
-- 
2.43.0


From 7f2bbdbcdaee9e05acc5546a72af224224719fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 20/65] fix: malformed digits of ASCII and BCD integers aborted
 the decoder or were accepted

---
 asn1crt/asn1crt_encoding_acn.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 625c5c7..9822141 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -566,6 +566,8 @@ flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int en
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
+		if (digit > 9)
+			return FALSE;
 
 		ret *= 10;
 		ret += digit;
@@ -686,7 +688,8 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 	{
 		if (!BitStream_ReadByte(pBitStrm, &digit))
 			return FALSE;
-		ASSERT_OR_RETURN_FALSE(digit >= '0' && digit <= '9');
+		if (digit < '0' || digit > '9')
+			return FALSE;
 		digit = (byte)((int)digit - '0');
 
 		ret *= 10;
@@ -712,7 +715,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 	else if (digit == '-')
 		sign = -1;
 	else {
-		ASSERT_OR_RETURN_FALSE(0);
+		return FALSE;
 	}
 	encodedSizeInBytes--;
 
@@ -721,9 +724,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 		return false;
 	}
 
-	*pIntVal = (asn1SccSint)ret;
-
-	*pIntVal = sign*(*pIntVal);
+	*pIntVal = (asn1SccSint)(sign > 0 ? ret : 0 - ret);
 	return TRUE;
 
 }
@@ -863,6 +864,8 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint*
 		if (!BitStream_ReadByte(pBitStrm, &(tmp[sz - 1])))
 			return FALSE;
 
+		if (digit < '0' || digit > '9')
+			return FALSE;
 		digit = (byte)((int)digit - '0');
 
 		ret *= 10;
@@ -883,16 +886,15 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint*
 
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
-	ASSERT_OR_RETURN_FALSE(digit == '-' || digit == '+');
+	if (digit != '-' && digit != '+')
+		return FALSE;
 	if (digit == '-')
 		isNegative = TRUE;
 
 	if (!Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &ret, null_characters, null_characters_size))
 		return false;
 
-	*pIntVal = (asn1SccSint)ret;
-	if (isNegative)
-		*pIntVal = -(*pIntVal);
+	*pIntVal = (asn1SccSint)(isNegative ? 0 - ret : ret);
 	return TRUE;
 }
 
-- 
2.43.0


From 47ed7b4c7bfa577d7734abcfef671ab4babfd893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 21/65] fix: strings with a multi-byte termination pattern
 overran the destination by one byte

---
 asn1crt/asn1crt_encoding_acn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 9822141..79dd2f7 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1328,7 +1328,7 @@ flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint
 	}
 
 	asn1SccSint i = 0;
-	while (i <= max && (memcmp(null_character, tmp, sz) != 0)) {
+	while (i < max && (memcmp(null_character, tmp, sz) != 0)) {
 		strVal[i] = tmp[0];
 		i++;
 		for (int j = 0; j < (int)sz - 1; j++)
-- 
2.43.0


From a856abb1978547c66fafc2dfb6750c1be2e1f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 22/65] fix: streaming: null terminated BIT STRINGs whose
 terminator crosses a block were refused

---
 asn1crt/asn1crt_encoding.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 0df046b..a261cce 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1331,6 +1331,28 @@ flag BitStream_ReadBits_nullterminated(BitStream* pBitStrm, const byte bit_termi
 	flag bitVal;
 	BitStream tmpStrm;
 	BitStream_Init(&tmpStrm, BuffToWrite, nMaxReadBits % 8 == 0 ? nMaxReadBits / 8 : nMaxReadBits / 8 + 1);
+	if (bit_terminated_pattern_size_in_bits > 0 && bit_terminated_pattern_size_in_bits <= 64) {
+		/* compare within a window of the last bits read: in streaming mode it is not possible to go back */
+		const uint64_t mask = ((uint64_t)-1) >> (64 - bit_terminated_pattern_size_in_bits);
+		uint64_t pattern = 0;
+		uint64_t window = 0;
+		for (size_t k = 0; k < bit_terminated_pattern_size_in_bits; k++) {
+			pattern = (pattern << 1) | ((bit_terminated_pattern[k / 8] & masks[k % 8]) ? 1u : 0u);
+			if (!BitStream_ReadBit(pBitStrm, &bitVal))
+				return FALSE;
+			window = (window << 1) | (bitVal ? 1u : 0u);
+		}
+		while (window != pattern) {
+			if (*bitsRead >= nMaxReadBits)
+				return FALSE;
+			BitStream_AppendBit(&tmpStrm, (window & ~(mask >> 1)) != 0);
+			*bitsRead += 1;
+			if (!BitStream_ReadBit(pBitStrm, &bitVal))
+				return FALSE;
+			window = ((window << 1) & mask) | (bitVal ? 1u : 0u);
+		}
+		return TRUE;
+	}
 	while (ret && (*bitsRead < nMaxReadBits) && ((checkBitPatternPresentResult = BitStream_checkBitPatternPresent(pBitStrm, bit_terminated_pattern, bit_terminated_pattern_size_in_bits)) == 1))
 	{
 		ret = BitStream_ReadBit(pBitStrm, &bitVal);
-- 
2.43.0


From 734cb4caac2cb34adc318e720a41ebfa47d2820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 23/65] fix: null terminated SEQUENCE OF without terminator was
 accepted with an undefined size

---
 StgC/acn_c.stg | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 0653c2a..af21df9 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -690,10 +690,10 @@ if (ret && (<i> == <nSizeMax>) && (checkBitPatternPresentResult == 1)) {
 }
 
 
-if (ret && (checkBitPatternPresentResult == 0)) {
+if (ret && (checkBitPatternPresentResult != 2)) {
 	ret = FALSE;			/*COVERAGE_IGNORE*/
 	*pErrCode = <sErrCode>;	/*COVERAGE_IGNORE*/
-} else if (ret && (checkBitPatternPresentResult == 2)) {
+} else if (ret) {
 	<p><sAcc>nCount = <i>;
 	ret = true;
 	*pErrCode = 0;
-- 
2.43.0


From 82d38bc84117344fe5a8beade9b6efec044d15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 24/65] fix: truncated IEEE754-1985-32 little endian REALs were
 accepted

---
 StgC/acn_c.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index af21df9..08f2828 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -344,7 +344,7 @@ ret = Acn_Dec_Real_IEEE754_64_big_endian(pBitStrm, <p>);
 
 Real_32_little_endian_encode(p, sSuffix, sErrCode) ::= "Acn_Enc_Real_IEEE754_32_little_endian(pBitStrm, <p>);"
 Real_32_little_endian_decode(p, sSuffix, sErrCode) ::= <<
-Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
+ret = Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
 <A(sErrCode)>
 >>
 
-- 
2.43.0


From bd181824e728253f637d36de6f8b94aaa4822f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 25/65] fix: decoding failed without an error code or went on
 after a failed length or determinant

---
 BackendAst/Acn/AcnOctetBitStrings.fs |  2 +-
 BackendAst/Acn/AcnStrings.fs         |  2 +-
 BackendAst/DAstUPer.fs               |  4 ++--
 CommonTypes/AbstractMacros.fs        |  4 ++--
 StgAda/uper_a.stg                    |  8 ++++----
 StgC/acn_c.stg                       |  8 ++++++++
 StgC/uper_c.stg                      | 23 +++++++++++++++--------
 StgScala/uper_scala.stg              |  8 ++++----
 8 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/BackendAst/Acn/AcnOctetBitStrings.fs b/BackendAst/Acn/AcnOctetBitStrings.fs
index b6c9502..8788e08 100644
--- a/BackendAst/Acn/AcnOctetBitStrings.fs
+++ b/BackendAst/Acn/AcnOctetBitStrings.fs
@@ -31,7 +31,7 @@ let createOctetStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserte
         let funcBodyContent =
             match o.acnEncodingClass with
             | SZ_EC_FIXED_SIZE ->
-                let fncBody = fixedSize td pp access o.minSize.acn codec
+                let fncBody = fixedSize td pp access o.minSize.acn errCode.errCodeName codec
                 Some(fncBody, [errCode],[])
 
             | SZ_EC_LENGTH_EMBEDDED lenSize ->
diff --git a/BackendAst/Acn/AcnStrings.fs b/BackendAst/Acn/AcnStrings.fs
index 152d90c..ff11060 100644
--- a/BackendAst/Acn/AcnStrings.fs
+++ b/BackendAst/Acn/AcnStrings.fs
@@ -129,7 +129,7 @@ let createAcnStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
             | _ when o.maxSize.uper < 65536I && o.maxSize.uper=o.minSize.uper  ->
                 str_FixedSize pp typeDefinitionName i internalItem o.minSize.uper nBits nBits 0I initExpr introSnap callAux codec, charIndex@nStringLength
             | _ when o.maxSize.uper < 65536I && o.maxSize.uper<>o.minSize.uper  ->
-                str_VarSize pp (p.accessPath.joined lm.lg) typeDefinitionName i internalItem o.minSize.uper o.maxSize.uper nSizeInBits nBits nBits 0I initExpr callAux codec, charIndex@nStringLength
+                str_VarSize pp (p.accessPath.joined lm.lg) typeDefinitionName i internalItem o.minSize.uper o.maxSize.uper nSizeInBits nBits nBits 0I initExpr callAux errCode.errCodeName codec, charIndex@nStringLength
             | _                                                ->
                 let funcBodyContent,localVariables = DAstUPer.handleFragmentation lm p codec errCode ii o.uperMaxSizeInBits o.minSize.uper o.maxSize.uper internalItem nBits false true
                 funcBodyContent,charIndex@localVariables
diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index f6b536b..c67499a 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -485,7 +485,7 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
             | _ when o.maxSize.uper < 65536I && o.maxSize.uper=o.minSize.uper ->
                 str_FixedSize pp typeDefinitionName i internalItem o.minSize.uper nBits nBits 0I initExpr introSnap callAux codec, lv::charIndex@nStringLength
             | _ when o.maxSize.uper < 65536I && o.maxSize.uper<>o.minSize.uper ->
-                str_VarSize pp (p.accessPath.joined lm.lg) typeDefinitionName i internalItem o.minSize.uper o.maxSize.uper nSizeInBits nBits nBits 0I initExpr callAux codec, lv::charIndex@nStringLength
+                str_VarSize pp (p.accessPath.joined lm.lg) typeDefinitionName i internalItem o.minSize.uper o.maxSize.uper nSizeInBits nBits nBits 0I initExpr callAux errCode.errCodeName codec, lv::charIndex@nStringLength
             | _ ->
                 let funcBodyContent,localVariables = handleFragmentation lm p codec errCode ii o.uperMaxSizeInBits o.minSize.uper o.maxSize.uper internalItem nBits false true
                 let localVariables = localVariables |> List.addIf (lm.lg.uper.requires_IA5String_i || o.maxSize.uper<>o.minSize.uper) lv
@@ -521,7 +521,7 @@ let createOctetStringFunction_funcBody (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros
             | false, Decode -> [lm.lg.uper.count_var]
 
         match minSize with
-        | _ when maxSize < 65536I && isFixedSize -> fixedSize td pp access minSize codec, (if false then lv::nStringLength else nStringLength)
+        | _ when maxSize < 65536I && isFixedSize -> fixedSize td pp access minSize errCode.errCodeName codec, (if false then lv::nStringLength else nStringLength)
         | _ when maxSize < 65536I && (not isFixedSize) -> varSize td pp access minSize maxSize nSizeInBits  errCode.errCodeName codec, (if false  then lv::nStringLength else nStringLength)
         | _ ->
             let funcBodyContent,localVariables = handleFragmentation lm p codec errCode ii uperMaxSizeInBits minSize maxSize internalItem nIntItemMaxSize false false
diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index 6a9b91a..3114263 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -337,10 +337,10 @@ Generated by the C stg macros with the following command
         abstract member sequence_default_child : p:string -> sAcc:string -> sChName:string -> sChildContent:string -> soExistVar:string option -> soChildExpr:string option -> sChildTypedef:string -> sInitWithDefaultValue:string -> codec:Codec -> string;
         abstract member sequence_build : p:string -> sTypeDefName:string -> bIsOptional:bool -> arrsChildren:seq<string> -> string;
         abstract member str_FixedSize : p:string -> sTasName:string -> i:string -> sInternalItem:string -> nFixedSize:BigInteger -> nIntItemMinSize:BigInteger -> nIntItemMaxSize:BigInteger -> nAlignSize:BigInteger -> soInitExpr:string option -> bIntroSnap:bool -> soCallAux:string option -> codec:Codec -> string;
-        abstract member str_VarSize : p:string -> sPIden:string -> sTasName:string -> i:string -> sInternalItem:string -> nSizeMin:BigInteger -> nSizeMax:BigInteger -> nSizeInBits:BigInteger -> nIntItemMinSize:BigInteger -> nIntItemMaxSize:BigInteger -> nAlignSize:BigInteger -> soInitExpr:string option -> soCallAux:string option -> codec:Codec -> string;
+        abstract member str_VarSize : p:string -> sPIden:string -> sTasName:string -> i:string -> sInternalItem:string -> nSizeMin:BigInteger -> nSizeMax:BigInteger -> nSizeInBits:BigInteger -> nIntItemMinSize:BigInteger -> nIntItemMaxSize:BigInteger -> nAlignSize:BigInteger -> soInitExpr:string option -> soCallAux:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member seqOf_FixedSize : p:string -> sTasName:string -> i:string -> sInternalItem:string -> nFixedSize:BigInteger -> nIntItemMinSize:BigInteger -> nIntItemMaxSize:BigInteger -> nAlignSize:BigInteger -> sChildInitExpr:string -> soCallAux:string option -> codec:Codec -> string;
         abstract member seqOf_VarSize : p:string -> sAcc:string -> sTasName:string -> i:string -> sInternalItem:string -> nSizeMin:BigInteger -> nSizeMax:BigInteger -> nSizeInBits:BigInteger -> nIntItemMinSize:BigInteger -> nIntItemMaxSize:BigInteger -> nAlignSize:BigInteger -> sChildInitExpr:string -> sErrCode:string -> nAbsOffset:BigInteger -> nRemainingMinBits:BigInteger -> nLevel:BigInteger -> nIx:BigInteger -> nOffset:BigInteger -> bIntroSnap:bool -> soCallAux:string option -> codec:Codec -> string;
-        abstract member octet_FixedSize : sTypeDefName:string -> p:string -> sAcc:string -> nFixedSize:BigInteger -> codec:Codec -> string;
+        abstract member octet_FixedSize : sTypeDefName:string -> p:string -> sAcc:string -> nFixedSize:BigInteger -> sErrCode:string -> codec:Codec -> string;
         abstract member octet_VarSize : sTypeDefName:string -> p:string -> sAcc:string -> nSizeMin:BigInteger -> nSizeMax:BigInteger -> nSizeInBits:BigInteger -> sErrCode:string -> codec:Codec -> string;
         abstract member bitString_FixSize : sTypeDefName:string -> p:string -> sAcc:string -> nFixedSize:BigInteger -> sErrCode:string -> codec:Codec -> string;
         abstract member bitString_VarSize : sTypeDefName:string -> p:string -> sAcc:string -> nSizeMin:BigInteger -> nSizeMax:BigInteger -> sErrCode:string -> nSizeInBits:BigInteger -> codec:Codec -> string;
diff --git a/StgAda/uper_a.stg b/StgAda/uper_a.stg
index 1f79326..aad5f19 100644
--- a/StgAda/uper_a.stg
+++ b/StgAda/uper_a.stg
@@ -512,7 +512,7 @@ result := <rtlModuleName()>.ASN1_RESULT'(Success => True, ErrorCode => 0);
 <p>(<nFixedSize> + 1) := adaasn1rtl.NUL;
 >>
 
-str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 nStringLength := <rtlModuleName()>.getStringSize(<p>);
 result.Success := nStringLength >= <nSizeMin> AND nStringLength \<= <nSizeMax>;
 <i> := 1;
@@ -522,7 +522,7 @@ if result.Success then
 end if;
 >>
 
-str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 --val := <sTasName>_Init;
 result.ErrorCode := <rtlModuleName()>.ERR_INSUFFICIENT_DATA;
 adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, <nSizeMin>, <nSizeMax>, <nSizeInBits>, result.Success);
@@ -565,11 +565,11 @@ if not result.Success then
 end if;
 >>
 
-octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, <p><sAcc>Data, Integer(<nFixedSize>));
 >>
 
-octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 result := <rtlModuleName()>.ASN1_RESULT'(Success => True, ErrorCode => 0);
 adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, <p><sAcc>Data, Integer(<nFixedSize>), result.success);
 >>
diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 08f2828..bce3b92 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -599,6 +599,7 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCo
 oct_external_field_decode(sTypedefName, p, sAcc, noSizeMin, noSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode) ::= <<
 <if(noSizeMin)>
 ret = (<noSizeMin>\<=<sExtFld><if(noSizeMax)> && <sExtFld>\<=<noSizeMax><endif>);
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -607,6 +608,7 @@ if (ret) {
 <else>
 <if(noSizeMax)>
 ret = (<sExtFld>\<=<noSizeMax>);
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -627,6 +629,7 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nSizeMax>);
 
 oct_external_field_fix_size_decode(sTypedefName, p, sAcc, noSizeMin, nSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nSizeMax>);
 	<A(sErrCode)>
@@ -653,6 +656,7 @@ sqf_external_field_encode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nS
 
 sqf_external_field_decode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode, nIntItemMinSize, nIntItemMaxSize, sChildInitExpr, bIntroSnap, soCallAux) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     <loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize=[p,sAcc, "nCount"])>
@@ -666,6 +670,7 @@ sqf_external_field_fix_size_encode(sTypeDefName, p, sAcc, i, sInternalItem, noSi
 
 sqf_external_field_fix_size_decode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode, nIntItemMinSize, nIntItemMaxSize, sChildInitExpr, bIntroSnap, soCallAux) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize=[nSizeMax])>
 }
@@ -709,6 +714,7 @@ BitStream_AppendBits(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
 bit_string_external_field_decode(sTypeDefName, p, sErrCode, sAcc, noSizeMin, noSizeMax, sExtFld) ::= <<
 <if(noSizeMin)>
 ret = (<noSizeMin>\<=<sExtFld><if(noSizeMax)> && <sExtFld>\<=<noSizeMax><endif>);
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_ReadBits(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -717,6 +723,7 @@ if (ret) {
 <else>
 <if(noSizeMax)>
 ret = (<sExtFld>\<=<noSizeMax>);
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_ReadBits(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -736,6 +743,7 @@ BitStream_AppendBits(pBitStrm, <p><sAcc>arr, <nSizeMax>);
 
 bit_string_external_field_fixed_size_decode(sTypeDefName, p, sErrCode, sAcc, noSizeMin, nSizeMax, sExtFld) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     ret = BitStream_ReadBits(pBitStrm, <p><sAcc>arr, <nSizeMax>);
     *pErrCode = ret ? 0 : <sErrCode>;
diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index b020e43..95812d2 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -462,7 +462,7 @@ str_FixedSize_decode(p, sTasName, i, sInternalItem, nFixedSize, nIntItemMinSize,
 <p>[<nFixedSize>] = 0x0;
 >>
 
-str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 nStringLength = strlen(<p>);
 /*ret = nStringLength >= <nSizeMin> && nStringLength \<= <nSizeMax>;*/
 BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, <nSizeMin>, <nSizeMax>);
@@ -470,10 +470,13 @@ BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, <nSizeMin>, <nSiz
 
 >>
 
-str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nStringLength, <nSizeMin>, <nSizeMax>);
-<loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize="nStringLength")>
-<p>[nStringLength] = 0x0;
+*pErrCode = ret ? 0 : <sErrCode>;
+if (ret) {
+    <loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize="nStringLength")>
+    <p>[nStringLength] = 0x0;
+}
 >>
 
 
@@ -501,12 +504,13 @@ ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSiz
 
 
 
-octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nFixedSize>);
 >>
 
-octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nFixedSize>);
+*pErrCode = ret ? 0 : <sErrCode>;
 >>
 
 octet_VarSize_encode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, nSizeInBits, sErrCode) ::= <<
@@ -516,9 +520,11 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCo
 
 octet_VarSize_decode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, nSizeInBits, sErrCode) ::= <<
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSizeMax>);
+if (ret) {
+    <p><sAcc>nCount = (long)nCount;
+    ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+}
 *pErrCode = ret ? 0 : <sErrCode>;
-<p><sAcc>nCount = (long)nCount;
-ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
 >>
 
 
@@ -540,6 +546,7 @@ BitStream_EncodeConstraintWholeNumber(pBitStrm, <p><sAcc>nCount, <nSizeMin>, <nS
 
 bitString_VarSize_decode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, sErrCode, nSizeInBits) ::= <<
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSizeMax>);
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
 	<p><sAcc>nCount = (long)nCount;
 	<bitString_FixSize_decode(sTypeDefName=sTypeDefName, p=p, sAcc=sAcc, nFixedSize=[p,sAcc, "nCount"], sErrCode=sErrCode)>
diff --git a/StgScala/uper_scala.stg b/StgScala/uper_scala.stg
index 57d650a..c3364f2 100644
--- a/StgScala/uper_scala.stg
+++ b/StgScala/uper_scala.stg
@@ -430,7 +430,7 @@ str_FixedSize_decode(p, sTasName, i, sInternalItem, nFixedSize, nIntItemMinSize,
 >>
 
 
-str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 nStringLength = <p>.indexOfOrLength(0x00.toRawUByte)
 /*ret = nStringLength >= <nSizeMin> && nStringLength \<= <nSizeMax>;*/
 codec.base.encodeConstrainedWholeNumber(nStringLength, <nSizeMin>, <nSizeMax>)
@@ -438,7 +438,7 @@ val <sPIden>_nCount = nStringLength
 <soCallAux>
 >>
 
-str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 nStringLength = codec.base.decodeConstrainedWholeNumberInt(<nSizeMin>, <nSizeMax>)
 val <p>_nCount = nStringLength
 <soCallAux>
@@ -496,11 +496,11 @@ val <p>_nCount = locally {
 <soCallAux>
 >>
 
-octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 codec.base.encodeOctetString_no_length_vec(<p><sAcc>arr, <nFixedSize>.toInt)
 >>
 
-octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 val <p> = <sTypeDefName>(codec.base.decodeOctetString_no_length_vec(<nFixedSize>))
 >>
 
-- 
2.43.0


From 7075e5372258de2f8e0f9d4c243f309bb0bc0a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 26/65] fix: failures inside fragments of fixed size types with
 64K or more items were ignored

---
 StgC/uper_c.stg | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index 95812d2..188a069 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -692,7 +692,7 @@ for(<sBlockIndex> = 0; ret && <sBlockIndex> \< <nBlocks64K>; <sBlockIndex>++) {
         *pErrCode = ret ? 0 : <sErrCodeName>;
 
 	    <else>
-	    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
+	    for(<sBLI>=(int)<sCurOffset>; ret && <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
 		    <sInternalItem>
 	    }
 
@@ -706,7 +706,7 @@ for(<sBlockIndex> = 0; ret && <sBlockIndex> \< <nBlocks64K>; <sBlockIndex>++) {
 FixedSize_Fragmentation_sqf_small_block_decode(p, sAcc,sInternalItem, nBlockSize, sBlockId, sCurOffset, sCurBlockSize, sBLI, sRemainingItemsVar, bIsBitStringType, sErrCodeName) ::=<<
 //decode a single Block with <nBlockSize> items
 <sCurBlockSize> = <nBlockSize>;
-ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &<sRemainingItemsVar>, 0, 0xFF);
+ret = ret && BitStream_DecodeConstraintWholeNumber(pBitStrm, &<sRemainingItemsVar>, 0, 0xFF);
 ret  = ret && (<sRemainingItemsVar> == <sBlockId>);
 *pErrCode = ret ? 0 : <sErrCodeName>;
 if (ret) {
@@ -715,7 +715,7 @@ if (ret) {
     *pErrCode = ret ? 0 : <sErrCodeName>;
 
     <else>
-    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
+    for(<sBLI>=(int)<sCurOffset>; ret && <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
 	    <sInternalItem>
     }
 
@@ -727,21 +727,22 @@ if (ret) {
 FixedSize_Fragmentation_sqf_remaining_decode(p, sAcc,sInternalItem, bRemainingItemsWithinByte, nRemainingItemsVar, sCurOffset, sBLI, sRemainingItemsVar, bIsBitStringType, sErrCodeName) ::= <<
 //decode remaining <nRemainingItemsVar> items
 <if(bRemainingItemsWithinByte)>
-ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &<sRemainingItemsVar>, 0, 0xFF);
+ret = ret && BitStream_DecodeConstraintWholeNumber(pBitStrm, &<sRemainingItemsVar>, 0, 0xFF);
 ret  = ret && (<sRemainingItemsVar> == <nRemainingItemsVar>);
 
 <else>
-ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &<sRemainingItemsVar>, 0, 0xFFFF);
+ret = ret && BitStream_DecodeConstraintWholeNumber(pBitStrm, &<sRemainingItemsVar>, 0, 0xFFFF);
 ret = ret && ((0x8000 & <sRemainingItemsVar>) > 0) && ( (0x7FFF & <sRemainingItemsVar>) == <nRemainingItemsVar>);
 
 <endif>
+*pErrCode = ret ? 0 : <sErrCodeName>;
 if (ret) {
     <if(bIsBitStringType)>
     ret = BitStream_ReadBits(pBitStrm, &<p><sAcc>arr[<sCurOffset>/8], (int)<nRemainingItemsVar>);
     *pErrCode = ret ? 0 : <sErrCodeName>;
 
     <else>
-    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>); <sBLI>++)
+    for(<sBLI>=(int)<sCurOffset>; ret && <sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>); <sBLI>++)
     {
 	    <sInternalItem>
     }
-- 
2.43.0


From 05f0a5a86b9cc0fd82d03bdb144bccfcbfc8c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 27/65] fix: negative sizes passed the constraint checks

---
 StgC/isvalid_c.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgC/isvalid_c.stg b/StgC/isvalid_c.stg
index 5bf8a6c..6189fc0 100644
--- a/StgC/isvalid_c.stg
+++ b/StgC/isvalid_c.stg
@@ -120,7 +120,7 @@ ExpAndMulti(arrsExp) ::= <<
 >>
 ExpNot(sExp) ::= "(!<sExp>)"
 StrLen(sExp) ::= "strlen(<sExp>)"
-ArrayLen(sExp, sAcc) ::= "<sExp><sAcc>nCount"
+ArrayLen(sExp, sAcc) ::= "((unsigned int)<sExp><sAcc>nCount)"
 
 
 ExpressionToStatement(sExp1) ::=<<
-- 
2.43.0


From c6eb1f1f87b318b07e2840b487f696f79dc6ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 28/65] fix: RELATIVE-OID values with more components than fit
 passed the constraint check

---
 asn1crt/asn1crt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index 178b17b..558ac5a 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -123,7 +123,7 @@ flag ObjectIdentifier_isValid(const Asn1ObjectIdentifier *pVal) {
 }
 
 flag RelativeOID_isValid(const Asn1ObjectIdentifier *pVal) {
-	return pVal->nCount > 0;
+	return (pVal->nCount > 0) && (pVal->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH);
 }
 
 flag ObjectIdentifier_equal(const Asn1ObjectIdentifier *pVal1, const Asn1ObjectIdentifier *pVal2) {
-- 
2.43.0


From ce499c5eaa8e7a8a1e56c03e43b02b6efd913eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 29/65] fix: characters outside the alphabet of NumericString
 passed the constraint checks

---
 BackendAst/DastValidate2.fs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index c298bf5..28bccab 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -677,7 +677,12 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1Acn
     createIsValidFunction r l t (funcBody l fncs)  typeDefinition [] [] [] [] (Some errorCodeComment) ns
 
 let createStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.StringType) (typeDefinition:TypeDefinitionOrReference) (us:State)  =
-    let fncs, ns = o.cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaIndex=0; alphaFuncs=[]}
+    //the alphabet of NumericString is restricted by the type itself (X.680, 41.2)
+    let cons =
+        match o.isNumeric with
+        | true  -> (AlphabetConstraint ("", RangeSingleValueConstraint ("", " 0123456789")))::o.cons
+        | false -> o.cons
+    let fncs, ns = cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaIndex=0; alphaFuncs=[]}
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
     createIsValidFunction r l t (funcBody l fncs) typeDefinition ns.alphaFuncs [] [] [] (Some errorCodeComment) ns
 
-- 
2.43.0


From 6560282bb97c738184db4e94dd7d786ac1f32132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 30/65] fix: maximum size of REAL encodings was too small with
 -wordSize 4

---
 FrontEndAst/AcnCreateFromAntlr.fs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 758b792..7b8fcd2 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -329,7 +329,8 @@ let private mergeReal (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*Language
             }
         | None  -> {RealAcnProperties.encodingProp = None; endiannessProp = None }
     let uperRange    = uPER.getRealTypeConstraintUperRange cons loc
-    let uperMaxSizeInBits=(5I+asn1.args.integerSizeInBytes)*8I
+    //the mantissa takes as many bytes as a floating point number has, even when integers are smaller (-wordSize 4)
+    let uperMaxSizeInBits=(5I+(max asn1.args.integerSizeInBytes asn1.args.floatingPointSizeInBytes))*8I
     let uperMinSizeInBits=8I
     let alignment = tryGetProp props (fun x -> match x with ALIGNTONEXT e -> Some e | _ -> None)
     let acnEncodingClass,  acnMinSizeInBits, acnMaxSizeInBits= AcnEncodingClasses.GetRealEncodingClass alignment loc acnProperties uperMinSizeInBits uperMaxSizeInBits
-- 
2.43.0


From ea2c265c469803a1c58289eb047d631cb686f80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 31/65] fix: unconstrained INTEGER without content octets was
 accepted with a value taken from the following bits

---
 asn1crt/asn1crt_encoding.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index a261cce..7236b65 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -969,7 +969,8 @@ flag BitStream_DecodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v
 
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
 		return FALSE;
-	if (nBytes > WORD_SIZE)
+	/* there is at least one content octet (X.691, 11.8) */
+	if (nBytes < 1 || nBytes > WORD_SIZE)
 		return FALSE;
 
 	valIsNegative = BitStream_PeekBit(pBitStrm);
-- 
2.43.0


From 17fb45eab40686d409606911ad4a3850190048bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 32/65] fix: decode length-embedded BCD integers with as many
 digits as the encoder writes

The decoder refused more than 2 digits per byte of the word, so values of 17
to 20 digits (9 and 10 with 32-bit words) were encoded but never decoded.
---
 asn1crt/asn1crt_encoding_acn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 79dd2f7..bbe8782 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -598,7 +598,8 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccUint* pI
 	byte nNibbles = 0;
 	if (!BitStream_ReadByte(pBitStrm, &nNibbles))
 		return FALSE;
-	if (nNibbles > 2 * WORD_SIZE)
+	/* no more digits than the encoder produces for the largest value */
+	if (nNibbles > Acn_Get_Int_Size_BCD(MAX_INT))
 		return FALSE;
 	return Acn_Dec_Int_BCD_ConstSize(pBitStrm, pIntVal, nNibbles);
 }
-- 
2.43.0


From 2495f1c85e2d9b2d36738ab432584070da6fef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 33/65] fix: size determinants of CONTAINING fields with other
 widths than 8/16/32/64 did not compile with -acnDeferred

---
 BackendAst/DAstACNDeferred.fs | 36 ++++++++++++++++++++-----------
 CommonTypes/AbstractMacros.fs |  8 +++----
 StgAda/acn_a.stg              | 40 +++++++++++------------------------
 StgC/acn_c.stg                | 32 +++++++++++-----------------
 StgScala/acn_scala.stg        | 16 +++++++-------
 5 files changed, 60 insertions(+), 72 deletions(-)

diff --git a/BackendAst/DAstACNDeferred.fs b/BackendAst/DAstACNDeferred.fs
index b312fd6..31a45c9 100644
--- a/BackendAst/DAstACNDeferred.fs
+++ b/BackendAst/DAstACNDeferred.fs
@@ -549,6 +549,24 @@ type private DeferredRefCtx = {
 }
 
 
+/// The statement that patches the size determinant of a CONTAINING field.  The
+/// templates measure the contained encoding into the local variable acn_nCount.
+let private containingSizePatchCall
+        (ctx: DeferredRefCtx)
+        (sizePrmId: ReferenceToType)
+        (detParamName: string)
+        (errCode: ErrorCode) : string =
+    match findDetFunctionsForParam ctx.lm ctx.deps sizePrmId with
+    | None -> ""
+    | Some (_initFn, patchFn, nBitsOpt, uperMinOffset) ->
+        let valueExpr =
+            if uperMinOffset = 0I then "acn_nCount"
+            else ctx.lm.acn.acn_deferred_det_uper_offset_sub "acn_nCount" (uperMinOffset.ToString())
+        match nBitsOpt with
+        | Some nBits -> ctx.lm.acn.acn_deferred_det_patch_ptr_with_size patchFn nBits valueExpr detParamName errCode.errCodeName ctx.codec
+        | None -> ctx.lm.acn.acn_deferred_det_patch_ptr patchFn valueExpr detParamName errCode.errCodeName ctx.codec
+
+
 /// CONTAINING ExternalField, base type has NO standalone function (parameterized
 /// type): use funcBody closure + CONTAINING wrapper.  The CONTAINING size
 /// parameter was added by closure conversion and is NOT in o.acnArguments —
@@ -572,15 +590,12 @@ let private buildContainingClosureBody
             match containingSizePrm with
             | Some sizePrm ->
                 let detParamName = DAstACN.getAcnDeterminantName sizePrm.id
-                let patchFnName =
-                    match findDetFunctionsForParam ctx.lm ctx.deps sizePrm.id with
-                    | Some (_, patchFn, _, _) -> patchFn
-                    | None -> ""
+                let patchCall = containingSizePatchCall ctx sizePrm.id detParamName errCode
                 match ctx.o.encodingOptions.Value.octOrBitStr with
                 | CommonTypes.ContainedInOctString ->
-                    ctx.lm.acn.octet_string_containing_deferred_wrapper br.funcBody detParamName patchFnName errCode.errCodeName ctx.codec
+                    ctx.lm.acn.octet_string_containing_deferred_wrapper br.funcBody detParamName patchCall errCode.errCodeName ctx.codec
                 | CommonTypes.ContainedInBitString ->
-                    ctx.lm.acn.bit_string_containing_deferred_wrapper br.funcBody detParamName patchFnName errCode.errCodeName ctx.codec
+                    ctx.lm.acn.bit_string_containing_deferred_wrapper br.funcBody detParamName patchCall errCode.errCodeName ctx.codec
             | None ->
                 br.funcBody  // fallback: no wrapping if size param not found
         { br with
@@ -605,16 +620,13 @@ let private buildContainingStandaloneBody
         | _ -> str
     let sizePrm = ctx.o.resolvedType.acnParameters.Head
     let detParamName = DAstACN.getAcnDeterminantName sizePrm.id
-    let patchFnName =
-        match findDetFunctionsForParam ctx.lm ctx.deps sizePrm.id with
-        | Some (_initFn, patchFn, _, _) -> patchFn
-        | None -> ""
+    let patchCall = containingSizePatchCall ctx sizePrm.id detParamName errCode
     let fncBody =
         match ctx.o.encodingOptions.Value.octOrBitStr with
         | CommonTypes.ContainedInOctString ->
-            ctx.lm.acn.octet_string_containing_deferred_func pp baseFncName detParamName patchFnName errCode.errCodeName ctx.codec
+            ctx.lm.acn.octet_string_containing_deferred_func pp baseFncName detParamName patchCall errCode.errCodeName ctx.codec
         | CommonTypes.ContainedInBitString ->
-            ctx.lm.acn.bit_string_containing_deferred_func pp baseFncName detParamName patchFnName errCode.errCodeName ctx.codec
+            ctx.lm.acn.bit_string_containing_deferred_func pp baseFncName detParamName patchCall errCode.errCodeName ctx.codec
     { emptyBody ctx.lm with
         funcBody = fncBody
         errCodes = [errCode]
diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index 3114263..d26e541 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -473,14 +473,14 @@ Generated by the C stg macros with the following command
         abstract member checkAccessPath : arrsCheckPaths:seq<string> -> sUpdateStatement:string -> v:string -> sInitExpr:string -> string;
         abstract member SizeDependency_oct_str_containing : p:string -> sFuncName:string -> sReqBytesForUperEncoding:string -> v:string -> bIsOctet:bool -> sInner:string -> sLocalVarType:string -> string;
         abstract member octet_string_containing_ext_field_func : p:string -> sFuncName:string -> sReqBytesForUperEncoding:string -> sExtField:string -> sErrCode:string -> soInner:string option -> codec:Codec -> string;
-        abstract member octet_string_containing_deferred_func : p:string -> sFuncName:string -> sDetParamName:string -> sPatchFuncName:string -> sErrCode:string -> codec:Codec -> string;
+        abstract member octet_string_containing_deferred_func : p:string -> sFuncName:string -> sDetParamName:string -> sPatchCall:string -> sErrCode:string -> codec:Codec -> string;
         abstract member octet_string_containing_deferred_fixed_func : p:string -> sFuncName:string -> codec:Codec -> string;
         abstract member octet_string_containing_deferred_embedded_func : p:string -> sFuncName:string -> nMinSize:BigInteger -> nMaxSize:BigInteger -> nBits:BigInteger -> codec:Codec -> string;
-        abstract member octet_string_containing_deferred_wrapper : sBody:string -> sDetParamName:string -> sPatchFuncName:string -> sErrCode:string -> codec:Codec -> string;
-        abstract member bit_string_containing_deferred_func : p:string -> sFuncName:string -> sDetParamName:string -> sPatchFuncName:string -> sErrCode:string -> codec:Codec -> string;
+        abstract member octet_string_containing_deferred_wrapper : sBody:string -> sDetParamName:string -> sPatchCall:string -> sErrCode:string -> codec:Codec -> string;
+        abstract member bit_string_containing_deferred_func : p:string -> sFuncName:string -> sDetParamName:string -> sPatchCall:string -> sErrCode:string -> codec:Codec -> string;
         abstract member bit_string_containing_deferred_fixed_func : p:string -> sFuncName:string -> codec:Codec -> string;
         abstract member bit_string_containing_deferred_embedded_func : p:string -> sFuncName:string -> nMinSize:BigInteger -> nMaxSize:BigInteger -> nBits:BigInteger -> codec:Codec -> string;
-        abstract member bit_string_containing_deferred_wrapper : sBody:string -> sDetParamName:string -> sPatchFuncName:string -> sErrCode:string -> codec:Codec -> string;
+        abstract member bit_string_containing_deferred_wrapper : sBody:string -> sDetParamName:string -> sPatchCall:string -> sErrCode:string -> codec:Codec -> string;
         abstract member bit_string_containing_ext_field_func : p:string -> sFuncName:string -> sReqBytesForUperEncoding:string -> sReqBitsForUperEncoding:string -> sExtField:string -> sErrCode:string -> codec:Codec -> string;
         abstract member rtlModuleName : unit -> string;
         abstract member sparkAnnotations : sTypeDefName:string -> codec:Codec -> string;
diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 16e9c82..658e85b 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -1356,7 +1356,7 @@ end if;
    skipped. (Ada Bitstream.Size_In_Bytes is an immutable discriminant,
    so the C trick of temporarily reducing `count` does not translate.) */
 
-octet_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
     acn_data_start : constant adaasn1rtl.encoding.acn.AcnBitStreamPos := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
     acn_data_end : adaasn1rtl.encoding.acn.AcnBitStreamPos;
@@ -1366,16 +1366,12 @@ begin
     if result.Success then
         acn_data_end := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
         acn_nCount := adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
-        <sPatchFuncName>(acn_nCount, bs, <sDetParamName>, result);
-        if not result.Success then
-            result.ErrorCode := <sErrCode>;
-            return;
-        end if;
+        <sPatchCall>
     end if;
 end;
 >>
 
-octet_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
     acn_expected_end : constant Natural := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value) * 8;
 begin
@@ -1426,7 +1422,7 @@ begin
 end;
 >>
 
-octet_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
     acn_data_start : constant adaasn1rtl.encoding.acn.AcnBitStreamPos := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
     acn_data_end : adaasn1rtl.encoding.acn.AcnBitStreamPos;
@@ -1436,16 +1432,12 @@ begin
     if result.Success then
         acn_data_end := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
         acn_nCount := adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
-        <sPatchFuncName>(acn_nCount, bs, <sDetParamName>, result);
-        if not result.Success then
-            result.ErrorCode := <sErrCode>;
-            return;
-        end if;
+        <sPatchCall>
     end if;
 end;
 >>
 
-octet_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
     acn_expected_end : constant Natural := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value) * 8;
 begin
@@ -1454,7 +1446,7 @@ begin
 end;
 >>
 
-bit_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
     acn_data_start : constant adaasn1rtl.encoding.acn.AcnBitStreamPos := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
     acn_data_end : adaasn1rtl.encoding.acn.AcnBitStreamPos;
@@ -1464,16 +1456,12 @@ begin
     if result.Success then
         acn_data_end := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
         acn_nCount := adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end);
-        <sPatchFuncName>(acn_nCount, bs, <sDetParamName>, result);
-        if not result.Success then
-            result.ErrorCode := <sErrCode>;
-            return;
-        end if;
+        <sPatchCall>
     end if;
 end;
 >>
 
-bit_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
     acn_expected_end : constant Natural := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value);
 begin
@@ -1524,7 +1512,7 @@ begin
 end;
 >>
 
-bit_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
     acn_data_start : constant adaasn1rtl.encoding.acn.AcnBitStreamPos := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
     acn_data_end : adaasn1rtl.encoding.acn.AcnBitStreamPos;
@@ -1534,16 +1522,12 @@ begin
     if result.Success then
         acn_data_end := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
         acn_nCount := adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end);
-        <sPatchFuncName>(acn_nCount, bs, <sDetParamName>, result);
-        if not result.Success then
-            result.ErrorCode := <sErrCode>;
-            return;
-        end if;
+        <sPatchCall>
     end if;
 end;
 >>
 
-bit_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
     acn_expected_end : constant Natural := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value);
 begin
diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index bce3b92..734d855 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1232,22 +1232,20 @@ octet_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEnco
 >>
 
 /* CONTAINING with deferred patching: encode directly, PatchDet with measured distance */
-octet_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
     AcnBitStreamPos acn_data_start = Acn_BitStream_GetPos(pBitStrm);
     ret = <sFuncName>(<p>, pBitStrm, pErrCode, FALSE);
     if (ret) {
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
-        ret = <sPatchFuncName>((asn1SccUint)acn_nCount, pBitStrm, <sDetParamName>, pErrCode);
-        *pErrCode = <sErrCode>;
-        if (!ret) return FALSE;
+        <sPatchCall>
     }
 }
 >>
 
 /* CONTAINING with deferred patching: limit stream view, decode directly */
-octet_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
     long acn_saved_count = pBitStrm->count;
     long acn_expected_end = pBitStrm->currentByte + (long)<sDetParamName>->value;
@@ -1303,21 +1301,19 @@ octet_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nM
 
 /* CONTAINING ExternalField wrapper: wraps an inline body with save-pos/measure/PatchDet
    Used when the contained type has ACN parameters (no standalone ACN function). */
-octet_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
     AcnBitStreamPos acn_data_start = Acn_BitStream_GetPos(pBitStrm);
     <sBody>
     if (ret) {
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
-        ret = <sPatchFuncName>((asn1SccUint)acn_nCount, pBitStrm, <sDetParamName>, pErrCode);
-        *pErrCode = <sErrCode>;
-        if (!ret) return FALSE;
+        <sPatchCall>
     }
 }
 >>
 
-octet_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
     long acn_saved_count = pBitStrm->count;
     long acn_expected_end = pBitStrm->currentByte + (long)<sDetParamName>->value;
@@ -1330,22 +1326,20 @@ octet_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchFunc
 >>
 
 /* BIT STRING CONTAINING with deferred patching: encode directly, PatchDet with measured bit distance */
-bit_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
     AcnBitStreamPos acn_data_start = Acn_BitStream_GetPos(pBitStrm);
     ret = <sFuncName>(<p>, pBitStrm, pErrCode, FALSE);
     if (ret) {
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end);
-        ret = <sPatchFuncName>((asn1SccUint)acn_nCount, pBitStrm, <sDetParamName>, pErrCode);
-        *pErrCode = <sErrCode>;
-        if (!ret) return FALSE;
+        <sPatchCall>
     }
 }
 >>
 
 /* BIT STRING CONTAINING with deferred patching: limit stream view (bit-granular), decode directly */
-bit_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
     long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
     long acn_end_bits = acn_start_bits + (long)<sDetParamName>->value;
@@ -1402,21 +1396,19 @@ bit_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nMax
 >>
 
 /* BIT STRING CONTAINING ExternalField wrapper: wraps inline body with bit-granular measurement/limiting */
-bit_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
     AcnBitStreamPos acn_data_start = Acn_BitStream_GetPos(pBitStrm);
     <sBody>
     if (ret) {
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end);
-        ret = <sPatchFuncName>((asn1SccUint)acn_nCount, pBitStrm, <sDetParamName>, pErrCode);
-        *pErrCode = <sErrCode>;
-        if (!ret) return FALSE;
+        <sPatchCall>
     }
 }
 >>
 
-bit_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
     long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
     long acn_end_bits = acn_start_bits + (long)<sDetParamName>->value;
diff --git a/StgScala/acn_scala.stg b/StgScala/acn_scala.stg
index ad25cd9..a4e05c7 100644
--- a/StgScala/acn_scala.stg
+++ b/StgScala/acn_scala.stg
@@ -1117,11 +1117,11 @@ octet_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEnco
 >>
 
 /* CONTAINING with deferred patching — TODO Scala implementation */
-octet_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 // TODO: Scala deferred CONTAINING encode
 >>
 
-octet_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 // TODO: Scala deferred CONTAINING decode
 >>
 
@@ -1141,19 +1141,19 @@ octet_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nM
 // TODO: Scala deferred CONTAINING embedded decode
 >>
 
-octet_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 // TODO: Scala deferred CONTAINING wrapper encode
 >>
 
-octet_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+octet_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 // TODO: Scala deferred CONTAINING wrapper decode
 >>
 
-bit_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 // TODO: Scala bit_string_containing_deferred_func
 >>
 
-bit_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 // TODO: Scala bit_string_containing_deferred_func
 >>
 
@@ -1173,11 +1173,11 @@ bit_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nMax
 // TODO: Scala bit_string_containing_deferred_embedded_func
 >>
 
-bit_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 // TODO: Scala bit_string_containing_deferred_wrapper
 >>
 
-bit_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
+bit_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 // TODO: Scala bit_string_containing_deferred_wrapper
 >>
 
-- 
2.43.0


From c7e2ccaee794409a12650003c203d2ca53679717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 34/65] fix: OCTET STRING (CONTAINING) was not padded to whole
 octets with -acnDeferred

---
 StgAda/acn_a.stg | 34 ++++++++++++++++++++++++++++++++--
 StgC/acn_c.stg   | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 658e85b..765b819 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -1365,6 +1365,11 @@ begin
     <sFuncName>_aux(<p>, bs, result);
     if result.Success then
         acn_data_end := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
+        -- an octet string holds whole octets
+        while adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end) mod 8 /= 0 loop
+            adaasn1rtl.encoding.BitStream_AppendBit(bs, 0);
+            acn_data_end := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
+        end loop;
         acn_nCount := adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
         <sPatchCall>
     end if;
@@ -1381,11 +1386,26 @@ end;
 >>
 
 octet_string_containing_deferred_fixed_func_encode(p, sFuncName) ::= <<
-<sFuncName>_aux(<p>, bs, result);
+declare
+    acn_data_start : constant adaasn1rtl.encoding.acn.AcnBitStreamPos := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
+begin
+    <sFuncName>_aux(<p>, bs, result);
+    -- an octet string holds whole octets
+    while result.Success and then adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBits(acn_data_start, adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs)) mod 8 /= 0 loop
+        adaasn1rtl.encoding.BitStream_AppendBit(bs, 0);
+    end loop;
+end;
 >>
 
 octet_string_containing_deferred_fixed_func_decode(p, sFuncName) ::= <<
-<sFuncName>_aux(<p>, bs, result);
+declare
+    acn_data_start : constant Natural := bs.Current_Bit_Pos;
+begin
+    <sFuncName>_aux(<p>, bs, result);
+    if result.Success then
+        bs.Current_Bit_Pos := acn_data_start + (bs.Current_Bit_Pos - acn_data_start + 7) / 8 * 8;
+    end if;
+end;
 >>
 
 octet_string_containing_deferred_embedded_func_encode(p, sFuncName, nMinSize, nMaxSize, nBits) ::= <<
@@ -1400,6 +1420,11 @@ begin
     <sFuncName>_aux(<p>, bs, result);
     if result.Success then
         acn_data_end := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
+        -- an octet string holds whole octets
+        while adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end) mod 8 /= 0 loop
+            adaasn1rtl.encoding.BitStream_AppendBit(bs, 0);
+            acn_data_end := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
+        end loop;
         acn_nCount := adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
         adaasn1rtl.encoding.acn.Acn_BitStream_SetPos(bs, acn_len_pos);
         adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(acn_nCount), adaasn1rtl.Asn1Int(<nMinSize>), <nBits>);
@@ -1431,6 +1456,11 @@ begin
     <sBody>
     if result.Success then
         acn_data_end := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
+        -- an octet string holds whole octets
+        while adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end) mod 8 /= 0 loop
+            adaasn1rtl.encoding.BitStream_AppendBit(bs, 0);
+            acn_data_end := adaasn1rtl.encoding.acn.Acn_BitStream_GetPos(bs);
+        end loop;
         acn_nCount := adaasn1rtl.encoding.acn.Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
         <sPatchCall>
     end if;
diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 734d855..fa25892 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1238,6 +1238,11 @@ octet_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatch
     ret = <sFuncName>(<p>, pBitStrm, pErrCode, FALSE);
     if (ret) {
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
+        /* an octet string holds whole octets */
+        while (Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end) % 8 != 0) {
+            BitStream_AppendBitZero(pBitStrm);
+            acn_data_end = Acn_BitStream_GetPos(pBitStrm);
+        }
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
         <sPatchCall>
     }
@@ -1259,11 +1264,24 @@ octet_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatch
 
 /* CONTAINING with deferred patching, FIXED_SIZE: just call directly, no temp buffer */
 octet_string_containing_deferred_fixed_func_encode(p, sFuncName) ::= <<
-ret = <sFuncName>(<p>, pBitStrm, pErrCode, FALSE);
+{
+    AcnBitStreamPos acn_data_start = Acn_BitStream_GetPos(pBitStrm);
+    ret = <sFuncName>(<p>, pBitStrm, pErrCode, FALSE);
+    /* an octet string holds whole octets */
+    while (ret && Acn_BitStream_DistanceInBits(acn_data_start, Acn_BitStream_GetPos(pBitStrm)) % 8 != 0)
+        BitStream_AppendBitZero(pBitStrm);
+}
 >>
 
 octet_string_containing_deferred_fixed_func_decode(p, sFuncName) ::= <<
-ret = <sFuncName>(<p>, pBitStrm, pErrCode);
+{
+    AcnBitStreamPos acn_data_start = Acn_BitStream_GetPos(pBitStrm);
+    ret = <sFuncName>(<p>, pBitStrm, pErrCode);
+    while (ret && Acn_BitStream_DistanceInBits(acn_data_start, Acn_BitStream_GetPos(pBitStrm)) % 8 != 0) {
+        flag acn_padding_bit;
+        ret = BitStream_ReadBit(pBitStrm, &acn_padding_bit);
+    }
+}
 >>
 
 /* CONTAINING with deferred patching, LENGTH_EMBEDDED: save_pos + placeholder + direct encode + measure + patch */
@@ -1275,6 +1293,11 @@ octet_string_containing_deferred_embedded_func_encode(p, sFuncName, nMinSize, nM
     ret = <sFuncName>(<p>, pBitStrm, pErrCode, FALSE);
     if (ret) {
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
+        /* an octet string holds whole octets */
+        while (Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end) % 8 != 0) {
+            BitStream_AppendBitZero(pBitStrm);
+            acn_data_end = Acn_BitStream_GetPos(pBitStrm);
+        }
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
         Acn_BitStream_SetPos(pBitStrm, acn_len_pos);
         BitStream_EncodeConstraintWholeNumber(pBitStrm, acn_nCount, <nMinSize>, <nMaxSize>);
@@ -1307,6 +1330,11 @@ octet_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchCall
     <sBody>
     if (ret) {
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
+        /* an octet string holds whole octets */
+        while (Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end) % 8 != 0) {
+            BitStream_AppendBitZero(pBitStrm);
+            acn_data_end = Acn_BitStream_GetPos(pBitStrm);
+        }
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
         <sPatchCall>
     }
-- 
2.43.0


From db4000e39fc8c55376be40bc2e8e33fc1786c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 35/65] fix: size of a CONTAINING field was trusted beyond the
 end of the message with -acnDeferred

---
 StgAda/acn_a.stg |  68 ++++++++++++++++++-----
 StgC/acn_c.stg   | 137 +++++++++++++++++++++++++++++++----------------
 2 files changed, 146 insertions(+), 59 deletions(-)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 765b819..07d75c8 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -1378,10 +1378,17 @@ end;
 
 octet_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
-    acn_expected_end : constant Natural := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value) * 8;
+    acn_expected_end : Natural;
 begin
-    <sFuncName>_aux(<p>, bs, result);
-    bs.Current_Bit_Pos := acn_expected_end;
+    result := adaasn1rtl.ASN1_RESULT'(Success => <sDetParamName>.Value \<= adaasn1rtl.Asn1UInt((bs.Size_In_Bytes * 8 - bs.Current_Bit_Pos) / 8), ErrorCode => <sErrCode>);
+    if result.Success then
+        acn_expected_end := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value) * 8;
+        <sFuncName>_aux(<p>, bs, result);
+        if result.Success then
+            result := adaasn1rtl.ASN1_RESULT'(Success => bs.Current_Bit_Pos \<= acn_expected_end, ErrorCode => <sErrCode>);
+            bs.Current_Bit_Pos := acn_expected_end;
+        end if;
+    end if;
 end;
 >>
 
@@ -1439,10 +1446,16 @@ declare
     acn_expected_end : Natural;
 begin
     adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, acn_nCount, <nMinSize>, <nMaxSize>, <nBits>, result.Success);
+    if result.Success then
+        result.Success := acn_nCount \<= (bs.Size_In_Bytes * 8 - bs.Current_Bit_Pos) / 8;
+    end if;
     if result.Success then
         acn_expected_end := bs.Current_Bit_Pos + acn_nCount * 8;
         <sFuncName>_aux(<p>, bs, result);
-        bs.Current_Bit_Pos := acn_expected_end;
+        if result.Success then
+            result.Success := bs.Current_Bit_Pos \<= acn_expected_end;
+            bs.Current_Bit_Pos := acn_expected_end;
+        end if;
     end if;
 end;
 >>
@@ -1469,10 +1482,17 @@ end;
 
 octet_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
-    acn_expected_end : constant Natural := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value) * 8;
+    acn_expected_end : Natural;
 begin
-    <sBody>
-    bs.Current_Bit_Pos := acn_expected_end;
+    result := adaasn1rtl.ASN1_RESULT'(Success => <sDetParamName>.Value \<= adaasn1rtl.Asn1UInt((bs.Size_In_Bytes * 8 - bs.Current_Bit_Pos) / 8), ErrorCode => <sErrCode>);
+    if result.Success then
+        acn_expected_end := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value) * 8;
+        <sBody>
+        if result.Success then
+            result := adaasn1rtl.ASN1_RESULT'(Success => bs.Current_Bit_Pos \<= acn_expected_end, ErrorCode => <sErrCode>);
+            bs.Current_Bit_Pos := acn_expected_end;
+        end if;
+    end if;
 end;
 >>
 
@@ -1493,10 +1513,17 @@ end;
 
 bit_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
-    acn_expected_end : constant Natural := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value);
+    acn_expected_end : Natural;
 begin
-    <sFuncName>_aux(<p>, bs, result);
-    bs.Current_Bit_Pos := acn_expected_end;
+    result := adaasn1rtl.ASN1_RESULT'(Success => <sDetParamName>.Value \<= adaasn1rtl.Asn1UInt((bs.Size_In_Bytes * 8 - bs.Current_Bit_Pos)), ErrorCode => <sErrCode>);
+    if result.Success then
+        acn_expected_end := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value);
+        <sFuncName>_aux(<p>, bs, result);
+        if result.Success then
+            result := adaasn1rtl.ASN1_RESULT'(Success => bs.Current_Bit_Pos \<= acn_expected_end, ErrorCode => <sErrCode>);
+            bs.Current_Bit_Pos := acn_expected_end;
+        end if;
+    end if;
 end;
 >>
 
@@ -1534,10 +1561,16 @@ declare
     acn_expected_end : Natural;
 begin
     adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, acn_nCount, <nMinSize>, <nMaxSize>, <nBits>, result.Success);
+    if result.Success then
+        result.Success := acn_nCount \<= (bs.Size_In_Bytes * 8 - bs.Current_Bit_Pos);
+    end if;
     if result.Success then
         acn_expected_end := bs.Current_Bit_Pos + acn_nCount;
         <sFuncName>_aux(<p>, bs, result);
-        bs.Current_Bit_Pos := acn_expected_end;
+        if result.Success then
+            result.Success := bs.Current_Bit_Pos \<= acn_expected_end;
+            bs.Current_Bit_Pos := acn_expected_end;
+        end if;
     end if;
 end;
 >>
@@ -1559,10 +1592,17 @@ end;
 
 bit_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 declare
-    acn_expected_end : constant Natural := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value);
+    acn_expected_end : Natural;
 begin
-    <sBody>
-    bs.Current_Bit_Pos := acn_expected_end;
+    result := adaasn1rtl.ASN1_RESULT'(Success => <sDetParamName>.Value \<= adaasn1rtl.Asn1UInt((bs.Size_In_Bytes * 8 - bs.Current_Bit_Pos)), ErrorCode => <sErrCode>);
+    if result.Success then
+        acn_expected_end := bs.Current_Bit_Pos + Natural(<sDetParamName>.Value);
+        <sBody>
+        if result.Success then
+            result := adaasn1rtl.ASN1_RESULT'(Success => bs.Current_Bit_Pos \<= acn_expected_end, ErrorCode => <sErrCode>);
+            bs.Current_Bit_Pos := acn_expected_end;
+        end if;
+    end if;
 end;
 >>
 
diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index fa25892..1d32b79 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1252,13 +1252,22 @@ octet_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatch
 /* CONTAINING with deferred patching: limit stream view, decode directly */
 octet_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
-    long acn_saved_count = pBitStrm->count;
-    long acn_expected_end = pBitStrm->currentByte + (long)<sDetParamName>->value;
-    pBitStrm->count = acn_expected_end;
-    ret = <sFuncName>(<p>, pBitStrm, pErrCode);
-    pBitStrm->count = acn_saved_count;
-    pBitStrm->currentByte = acn_expected_end;
-    pBitStrm->currentBit = 0;
+    AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
+    ret = <sDetParamName>->value \<= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end) / 8;
+    *pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        long acn_saved_count = pBitStrm->count;
+        long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)<sDetParamName>->value * 8L;
+        pBitStrm->count = (acn_end_bits + 7) / 8;
+        ret = <sFuncName>(<p>, pBitStrm, pErrCode);
+        pBitStrm->count = acn_saved_count;
+        if (ret) {
+            ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit \<= acn_end_bits;
+            *pErrCode = ret ? 0 : <sErrCode>;
+            pBitStrm->currentByte = acn_end_bits / 8;
+            pBitStrm->currentBit = (int)(acn_end_bits % 8);
+        }
+    }
 }
 >>
 
@@ -1311,13 +1320,20 @@ octet_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nM
     asn1SccSint acn_nCount;
     ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &acn_nCount, <nMinSize>, <nMaxSize>);
     if (ret) {
-        long acn_saved_count = pBitStrm->count;
-        long acn_expected_end = pBitStrm->currentByte + (long)acn_nCount;
-        pBitStrm->count = acn_expected_end;
-        ret = <sFuncName>(<p>, pBitStrm, pErrCode);
-        pBitStrm->count = acn_saved_count;
-        pBitStrm->currentByte = acn_expected_end;
-        pBitStrm->currentBit = 0;
+        AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
+        ret = (asn1SccUint)acn_nCount \<= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end) / 8;
+        if (ret) {
+            long acn_saved_count = pBitStrm->count;
+            long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)acn_nCount * 8L;
+            pBitStrm->count = (acn_end_bits + 7) / 8;
+            ret = <sFuncName>(<p>, pBitStrm, pErrCode);
+            pBitStrm->count = acn_saved_count;
+            if (ret) {
+                ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit \<= acn_end_bits;
+                pBitStrm->currentByte = acn_end_bits / 8;
+                pBitStrm->currentBit = (int)(acn_end_bits % 8);
+            }
+        }
     }
 }
 >>
@@ -1343,13 +1359,22 @@ octet_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchCall
 
 octet_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
-    long acn_saved_count = pBitStrm->count;
-    long acn_expected_end = pBitStrm->currentByte + (long)<sDetParamName>->value;
-    pBitStrm->count = acn_expected_end;
-    <sBody>
-    pBitStrm->count = acn_saved_count;
-    pBitStrm->currentByte = acn_expected_end;
-    pBitStrm->currentBit = 0;
+    AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
+    ret = <sDetParamName>->value \<= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end) / 8;
+    *pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        long acn_saved_count = pBitStrm->count;
+        long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)<sDetParamName>->value * 8L;
+        pBitStrm->count = (acn_end_bits + 7) / 8;
+        <sBody>
+        pBitStrm->count = acn_saved_count;
+        if (ret) {
+            ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit \<= acn_end_bits;
+            *pErrCode = ret ? 0 : <sErrCode>;
+            pBitStrm->currentByte = acn_end_bits / 8;
+            pBitStrm->currentBit = (int)(acn_end_bits % 8);
+        }
+    }
 }
 >>
 
@@ -1369,14 +1394,22 @@ bit_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchCa
 /* BIT STRING CONTAINING with deferred patching: limit stream view (bit-granular), decode directly */
 bit_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
-    long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
-    long acn_end_bits = acn_start_bits + (long)<sDetParamName>->value;
-    long acn_saved_count = pBitStrm->count;
-    pBitStrm->count = (acn_end_bits + 7) / 8;
-    ret = <sFuncName>(<p>, pBitStrm, pErrCode);
-    pBitStrm->count = acn_saved_count;
-    pBitStrm->currentByte = acn_end_bits / 8;
-    pBitStrm->currentBit = (int)(acn_end_bits % 8);
+    AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
+    ret = <sDetParamName>->value \<= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end);
+    *pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        long acn_saved_count = pBitStrm->count;
+        long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)<sDetParamName>->value;
+        pBitStrm->count = (acn_end_bits + 7) / 8;
+        ret = <sFuncName>(<p>, pBitStrm, pErrCode);
+        pBitStrm->count = acn_saved_count;
+        if (ret) {
+            ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit \<= acn_end_bits;
+            *pErrCode = ret ? 0 : <sErrCode>;
+            pBitStrm->currentByte = acn_end_bits / 8;
+            pBitStrm->currentBit = (int)(acn_end_bits % 8);
+        }
+    }
 }
 >>
 
@@ -1411,14 +1444,20 @@ bit_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nMax
     asn1SccSint acn_nCount;
     ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &acn_nCount, <nMinSize>, <nMaxSize>);
     if (ret) {
-        long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
-        long acn_end_bits = acn_start_bits + (long)acn_nCount;
-        long acn_saved_count = pBitStrm->count;
-        pBitStrm->count = (acn_end_bits + 7) / 8;
-        ret = <sFuncName>(<p>, pBitStrm, pErrCode);
-        pBitStrm->count = acn_saved_count;
-        pBitStrm->currentByte = acn_end_bits / 8;
-        pBitStrm->currentBit = (int)(acn_end_bits % 8);
+        AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
+        ret = (asn1SccUint)acn_nCount \<= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end);
+        if (ret) {
+            long acn_saved_count = pBitStrm->count;
+            long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)acn_nCount;
+            pBitStrm->count = (acn_end_bits + 7) / 8;
+            ret = <sFuncName>(<p>, pBitStrm, pErrCode);
+            pBitStrm->count = acn_saved_count;
+            if (ret) {
+                ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit \<= acn_end_bits;
+                pBitStrm->currentByte = acn_end_bits / 8;
+                pBitStrm->currentBit = (int)(acn_end_bits % 8);
+            }
+        }
     }
 }
 >>
@@ -1438,14 +1477,22 @@ bit_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchCall,
 
 bit_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchCall, sErrCode) ::= <<
 {
-    long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
-    long acn_end_bits = acn_start_bits + (long)<sDetParamName>->value;
-    long acn_saved_count = pBitStrm->count;
-    pBitStrm->count = (acn_end_bits + 7) / 8;
-    <sBody>
-    pBitStrm->count = acn_saved_count;
-    pBitStrm->currentByte = acn_end_bits / 8;
-    pBitStrm->currentBit = (int)(acn_end_bits % 8);
+    AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
+    ret = <sDetParamName>->value \<= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end);
+    *pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        long acn_saved_count = pBitStrm->count;
+        long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)<sDetParamName>->value;
+        pBitStrm->count = (acn_end_bits + 7) / 8;
+        <sBody>
+        pBitStrm->count = acn_saved_count;
+        if (ret) {
+            ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit \<= acn_end_bits;
+            *pErrCode = ret ? 0 : <sErrCode>;
+            pBitStrm->currentByte = acn_end_bits / 8;
+            pBitStrm->currentBit = (int)(acn_end_bits % 8);
+        }
+    }
 }
 >>
 
-- 
2.43.0


From e0730984ffc07bd1e28a4cf3de8ac7ad9b315408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 36/65] fix: contents of CONTAINING fields were read beyond
 their size, and failures set no error code

---
 StgC/acn_c.stg  | 29 ++++++++++++++++++++---------
 StgC/uper_c.stg |  4 ++++
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 1d32b79..09bef22 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1215,13 +1215,14 @@ octet_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEnco
     BitStream* pBitStrm_save = pBitStrm;
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
-	ret = (int)<sExtField> \<= <sReqBytesForUperEncoding>;
+	ret = (asn1SccUint)(<sExtField>) \<= <sReqBytesForUperEncoding>;
 	*pErrCode = ret ? 0 : <sErrCode>;
 	if (ret) {
 		/*decode to the temporary bitstream buffer */
 		ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, (int)<sExtField>);
 		<A(sErrCode)>
 		if (ret) {
+            bitStrm.count = (long)<sExtField>;
             pBitStrm = &bitStrm;
             <soInner>
 			//ret = <sFuncName>(<p>, &bitStrm, pErrCode);
@@ -1289,6 +1290,7 @@ octet_string_containing_deferred_fixed_func_decode(p, sFuncName) ::= <<
     while (ret && Acn_BitStream_DistanceInBits(acn_data_start, Acn_BitStream_GetPos(pBitStrm)) % 8 != 0) {
         flag acn_padding_bit;
         ret = BitStream_ReadBit(pBitStrm, &acn_padding_bit);
+        *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
     }
 }
 >>
@@ -1319,9 +1321,11 @@ octet_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nM
 {
     asn1SccSint acn_nCount;
     ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &acn_nCount, <nMinSize>, <nMaxSize>);
+    *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
     if (ret) {
         AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
         ret = (asn1SccUint)acn_nCount \<= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end) / 8;
+        *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
         if (ret) {
             long acn_saved_count = pBitStrm->count;
             long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)acn_nCount * 8L;
@@ -1330,6 +1334,7 @@ octet_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nM
             pBitStrm->count = acn_saved_count;
             if (ret) {
                 ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit \<= acn_end_bits;
+                *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
                 pBitStrm->currentByte = acn_end_bits / 8;
                 pBitStrm->currentBit = (int)(acn_end_bits % 8);
             }
@@ -1443,9 +1448,11 @@ bit_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nMax
 {
     asn1SccSint acn_nCount;
     ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &acn_nCount, <nMinSize>, <nMaxSize>);
+    *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
     if (ret) {
         AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
         ret = (asn1SccUint)acn_nCount \<= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end);
+        *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
         if (ret) {
             long acn_saved_count = pBitStrm->count;
             long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)acn_nCount;
@@ -1454,6 +1461,7 @@ bit_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nMax
             pBitStrm->count = acn_saved_count;
             if (ret) {
                 ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit \<= acn_end_bits;
+                *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
                 pBitStrm->currentByte = acn_end_bits / 8;
                 pBitStrm->currentBit = (int)(acn_end_bits % 8);
             }
@@ -1507,11 +1515,13 @@ bit_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEncodi
 	static byte arr[<sReqBytesForUperEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
-	ret = (int)<sExtField> \<= <sReqBitsForUperEncoding>;
+	ret = (asn1SccUint)(<sExtField>) \<= <sReqBitsForUperEncoding>;
 	*pErrCode = ret ? 0 : <sErrCode>;
 	if (ret) {
 		ret = BitStream_ReadBits(pBitStrm, arr, (int)<sExtField>);
+		<A(sErrCode)>
 		if (ret) {
+			bitStrm.count = ((long)<sExtField> + 7) / 8;
 			ret = <sFuncName>(<p>, &bitStrm, pErrCode);
 		}
 	}
@@ -1565,9 +1575,11 @@ octet_string_containing_func_decode(p, sFuncName, sReqBytesForAcnEncoding, nBits
 	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nMinSize>, <nMaxSize>);
 	if (ret) {
 		ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, (int)nCount);
+		bitStrm.count = (long)nCount;
 	}
 
 	<endif>
+	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
 	if (ret) {
 		ret = <sFuncName>(<p>, &bitStrm, pErrCode);
 	}
@@ -1609,21 +1621,20 @@ bit_string_containing_func_decode(p, sFuncName, sReqBytesForAcnEncoding, sReqBit
 
 	<if(bFixedSize)>
 	ret = BitStream_ReadBits(pBitStrm, arr, <nMinSize>);
-	if (ret) {
-		ret = <sFuncName>(<p>, &bitStrm, pErrCode);
-	}
 
 	<else>
 	asn1SccSint nCount;
 	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nMinSize>, <nMaxSize>);
 	if (ret) {
-		ret = BitStream_ReadBits(pBitStrm, arr, nCount);
-		if (ret) {
-			ret = <sFuncName>(<p>, &bitStrm, pErrCode);
-		}
+		ret = BitStream_ReadBits(pBitStrm, arr, (int)nCount);
+		bitStrm.count = ((long)nCount + 7) / 8;
 	}
 
 	<endif>
+	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
+	if (ret) {
+		ret = <sFuncName>(<p>, &bitStrm, pErrCode);
+	}
 }
 >>
 
diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index 188a069..5128d2d 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -888,7 +888,9 @@ octet_string_containing_func_decode(p, sFuncName, sReqBytesForUperEncoding, nBit
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 	int nCount;
 	ret = BitStream_DecodeOctetString(pBitStrm, arr, &nCount, <nMinSize>, <nMaxSize>);
+	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
 	if (ret) {
+		bitStrm.count = nCount;
 		ret = <sFuncName>(<p>, &bitStrm, pErrCode);
 	}
 }
@@ -919,7 +921,9 @@ bit_string_containing_func_decode(p, sFuncName, sReqBytesForUperEncoding, sReqBi
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 	int nCount;
 	ret = BitStream_DecodeBitString(pBitStrm, arr, &nCount, <nMinSize>, <nMaxSize>);
+	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
 	if (ret) {
+		bitStrm.count = (nCount + 7) / 8;
 		ret = <sFuncName>(<p>, &bitStrm, pErrCode);
 	}
 }
-- 
2.43.0


From 730c425b0b6466a944c59b5deb26e1a1b3a299ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 37/65] fix: CONTAINING fields were encoded and decoded through
 static buffers shared by all calls

---
 StgC/LangGeneric_c.fs |  2 +-
 StgC/acn_c.stg        | 12 ++++++------
 StgC/uper_c.stg       |  8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/StgC/LangGeneric_c.fs b/StgC/LangGeneric_c.fs
index b61bbc8..a13ca7a 100644
--- a/StgC/LangGeneric_c.fs
+++ b/StgC/LangGeneric_c.fs
@@ -298,7 +298,7 @@ type LangGeneric_c() =
                 getAcnDepSizeDeterminantLocVars =
                     fun  sReqBytesForUperEncoding ->
                         [
-                            GenericLocalVariable {GenericLocalVariable.name = "arr"; varType = "byte"; arrSize = Some sReqBytesForUperEncoding; isStatic = true; initExp = None}
+                            GenericLocalVariable {GenericLocalVariable.name = "arr"; varType = "byte"; arrSize = Some sReqBytesForUperEncoding; isStatic = false; initExp = None}
                             GenericLocalVariable {GenericLocalVariable.name = "bitStrm"; varType = "BitStream"; arrSize = None; isStatic = false; initExp = None}
                         ]
                 choice_handle_always_absent_child = false
diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 09bef22..b98ebe6 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1211,7 +1211,7 @@ octet_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEnco
 /*open new scope to declare some variables*/
 {
 	
-	static byte arr[<sReqBytesForUperEncoding>];
+	byte arr[<sReqBytesForUperEncoding>];
     BitStream* pBitStrm_save = pBitStrm;
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
@@ -1512,7 +1512,7 @@ bit_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEncodi
 /*open new scope to declare some variables*/
 {
 	/*decode to a temporary bitstream*/
-	static byte arr[<sReqBytesForUperEncoding>];
+	byte arr[<sReqBytesForUperEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 	ret = (asn1SccUint)(<sExtField>) \<= <sReqBitsForUperEncoding>;
@@ -1540,7 +1540,7 @@ octet_string_containing_func_encode(p, sFuncName, sReqBytesForAcnEncoding, nBits
 /*open new scope to declare some variables*/
 {
 	/*encode to a temporary bitstream*/
-	static byte arr[<sReqBytesForAcnEncoding>];
+	byte arr[<sReqBytesForAcnEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 
@@ -1563,7 +1563,7 @@ octet_string_containing_func_decode(p, sFuncName, sReqBytesForAcnEncoding, nBits
 /*open new scope to declare some variables*/
 {
 	/*decode to a temporary bitstream*/
-	static byte arr[<sReqBytesForAcnEncoding>];
+	byte arr[<sReqBytesForAcnEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 
@@ -1590,7 +1590,7 @@ bit_string_containing_func_encode(p, sFuncName, sReqBytesForAcnEncoding, sReqBit
 /*open new scope to declare some variables*/
 {
 	/*encode to a temporary bitstream*/
-	static byte arr[<sReqBytesForAcnEncoding>];
+	byte arr[<sReqBytesForAcnEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 
@@ -1615,7 +1615,7 @@ bit_string_containing_func_decode(p, sFuncName, sReqBytesForAcnEncoding, sReqBit
 /*open new scope to declare some variables*/
 {
 	/*decode to a temporary bitstream*/
-	static byte arr[<sReqBytesForAcnEncoding>];
+	byte arr[<sReqBytesForAcnEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 
diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index 5128d2d..bc1095f 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -867,7 +867,7 @@ octet_string_containing_func_encode(p, sFuncName, sReqBytesForUperEncoding, nBit
 /*open new scope to declare some variables*/
 {
 	/*encode to a temporary bitstream*/
-	static byte arr[<sReqBytesForUperEncoding>];
+	byte arr[<sReqBytesForUperEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 
@@ -883,7 +883,7 @@ octet_string_containing_func_decode(p, sFuncName, sReqBytesForUperEncoding, nBit
 /*open new scope to declare some variables*/
 {
 	/*decode to a temporary bitstream*/
-	static byte arr[<sReqBytesForUperEncoding>];
+	byte arr[<sReqBytesForUperEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 	int nCount;
@@ -900,7 +900,7 @@ bit_string_containing_func_encode(p, sFuncName, sReqBytesForUperEncoding, sReqBi
 /*open new scope to declare some variables*/
 {
 	/*encode to a temporary bitstream*/
-	static byte arr[<sReqBytesForUperEncoding>];
+	byte arr[<sReqBytesForUperEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 
@@ -916,7 +916,7 @@ bit_string_containing_func_decode(p, sFuncName, sReqBytesForUperEncoding, sReqBi
 /*open new scope to declare some variables*/
 {
 	/*decode to a temporary bitstream*/
-	static byte arr[<sReqBytesForUperEncoding>];
+	byte arr[<sReqBytesForUperEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 	int nCount;
-- 
2.43.0


From d46edb4d9d8f82c17438a3a8e1283715ce9be455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 38/65] fix: negative size determinants were accepted where the
 smallest size is 0

---
 BackendAst/Acn/AcnOctetBitStrings.fs | 9 +++++++--
 BackendAst/Acn/AcnSequenceOf.fs      | 5 +++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/BackendAst/Acn/AcnOctetBitStrings.fs b/BackendAst/Acn/AcnOctetBitStrings.fs
index 8788e08..1bb6173 100644
--- a/BackendAst/Acn/AcnOctetBitStrings.fs
+++ b/BackendAst/Acn/AcnOctetBitStrings.fs
@@ -58,7 +58,7 @@ let createOctetStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserte
                         | NegInf detMax        -> Some detMax
                         | _                    -> None
                     | _ -> None
-                let noSizeMin = if o.minSize.acn = 0I then None else Some o.minSize.acn
+                let noSizeMin = if o.minSize.acn = 0I && unsigned then None else Some o.minSize.acn
                 let noSizeMax =
                     match detMaxOpt with
                     | Some detMax when detMax <= o.maxSize.acn -> None
@@ -107,6 +107,11 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
             | SZ_EC_ExternalField   _    ->
                 let extField = getExternalField lm r deps t.id
                 let tp = getExternalFieldType r deps t.id
+                let unsigned =
+                    match tp with
+                    | Some (AcnInsertedType.AcnInteger int) -> int.isUnsigned
+                    | Some (AcnInsertedType.AcnNullType _) -> true
+                    | _ -> false
                 let detMaxOpt =
                     match tp with
                     | Some (AcnInsertedType.AcnInteger int) ->
@@ -115,7 +120,7 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
                         | NegInf detMax        -> Some detMax
                         | _                    -> None
                     | _ -> None
-                let noSizeMin = if o.minSize.acn = 0I then None else Some o.minSize.acn
+                let noSizeMin = if o.minSize.acn = 0I && unsigned then None else Some o.minSize.acn
                 let noSizeMax =
                     match detMaxOpt with
                     | Some detMax when detMax <= o.maxSize.acn -> None
diff --git a/BackendAst/Acn/AcnSequenceOf.fs b/BackendAst/Acn/AcnSequenceOf.fs
index 1f5144d..e43855a 100644
--- a/BackendAst/Acn/AcnSequenceOf.fs
+++ b/BackendAst/Acn/AcnSequenceOf.fs
@@ -141,11 +141,12 @@ let createSequenceOfFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserted
                             | Some (AcnInsertedType.AcnInteger int) -> int.isUnsigned
                             | Some (AcnInsertedType.AcnNullType _) -> true
                             | _ -> false
+                        let noSizeMin = if o.minSize.acn = 0I && unsigned then None else Some o.minSize.acn
                         let introSnap = nestingScope.nestingLevel = 0I
                         let funcBodyContent =
                             match o.isFixedSize with
-                            | true  -> oct_sqf_external_field_fix_size td pp access (i level) internalItem.funcBody (if o.minSize.acn=0I then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
-                            | false -> external_field td pp access (i level) internalItem.funcBody (if o.minSize.acn=0I then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
+                            | true  -> oct_sqf_external_field_fix_size td pp access (i level) internalItem.funcBody noSizeMin o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
+                            | false -> external_field td pp access (i level) internalItem.funcBody noSizeMin o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
                         Some ({AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = errCode::childErrCodes; localVariables = (lv level)@localVariables; userDefinedFunctions=internalItem.userDefinedFunctions; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=internalItem.auxiliaries @ auxiliaries; icdResult = Some icd})
 
                 | SZ_EC_TerminationPattern bitPattern ->
-- 
2.43.0


From 8fca4436a4a211df0ad16769c3bae3c73afeaf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 39/65] fix: octet and bit strings overflowed when a
 determinant held a size its own type does not allow

---
 BackendAst/Acn/AcnOctetBitStrings.fs | 30 ++++++----------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/BackendAst/Acn/AcnOctetBitStrings.fs b/BackendAst/Acn/AcnOctetBitStrings.fs
index 1bb6173..ca03698 100644
--- a/BackendAst/Acn/AcnOctetBitStrings.fs
+++ b/BackendAst/Acn/AcnOctetBitStrings.fs
@@ -50,19 +50,10 @@ let createOctetStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserte
                     | Some (AcnInsertedType.AcnInteger int) -> int.isUnsigned
                     | Some (AcnInsertedType.AcnNullType _) -> true
                     | _ -> false
-                let detMaxOpt =
-                    match tp with
-                    | Some (AcnInsertedType.AcnInteger int) ->
-                        match int.uperRange with
-                        | Concrete (_, detMax) -> Some detMax
-                        | NegInf detMax        -> Some detMax
-                        | _                    -> None
-                    | _ -> None
                 let noSizeMin = if o.minSize.acn = 0I && unsigned then None else Some o.minSize.acn
-                let noSizeMax =
-                    match detMaxOpt with
-                    | Some detMax when detMax <= o.maxSize.acn -> None
-                    | _ -> Some o.maxSize.acn
+                // checked even when the type of the determinant has no larger values:
+                // its encoding may hold them and decoding it does not refuse them
+                let noSizeMax = Some o.maxSize.acn
                 let fncBody =
                     match o.isFixedSize with
                     | true  -> oct_external_field_fix_size td pp access noSizeMin ( o.maxSize.acn) extField unsigned nAlignSize errCode.errCodeName codec
@@ -112,19 +103,10 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
                     | Some (AcnInsertedType.AcnInteger int) -> int.isUnsigned
                     | Some (AcnInsertedType.AcnNullType _) -> true
                     | _ -> false
-                let detMaxOpt =
-                    match tp with
-                    | Some (AcnInsertedType.AcnInteger int) ->
-                        match int.uperRange with
-                        | Concrete (_, detMax) -> Some detMax
-                        | NegInf detMax        -> Some detMax
-                        | _                    -> None
-                    | _ -> None
                 let noSizeMin = if o.minSize.acn = 0I && unsigned then None else Some o.minSize.acn
-                let noSizeMax =
-                    match detMaxOpt with
-                    | Some detMax when detMax <= o.maxSize.acn -> None
-                    | _ -> Some o.maxSize.acn
+                // checked even when the type of the determinant has no larger values:
+                // its encoding may hold them and decoding it does not refuse them
+                let noSizeMax = Some o.maxSize.acn
                 let fncBody =
                     match o.minSize.uper = o.maxSize.uper with
                     | true  -> lm.acn.bit_string_external_field_fixed_size td pp errCode.errCodeName access noSizeMin ( o.maxSize.acn) extField codec
-- 
2.43.0


From 5cedc4bf12452fa6c4d27f944278a69a4671475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 40/65] fix: XER REAL encoding looped forever on infinities and
 NaN, lost small values and precision, and numbers went through static buffers

---
 asn1crt/asn1crt_encoding_xer.c | 93 +++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 34 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index c248cbd..dc8be56 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -9,43 +9,39 @@
 
 #include "asn1crt_encoding_xer.h"
 
-char* Int2String(asn1SccSint v) {
-	static char tmp[256];
-	snprintf(tmp, sizeof(tmp), "%" ASN1SCC_PRId, v);
-	return tmp;
+static const char* Int2String(asn1SccSint v, char* buf, size_t size) {
+	snprintf(buf, size, "%" ASN1SCC_PRId, v);
+	return buf;
 }
 
-char* UInt2String(asn1SccUint v) {
-	static char tmp[256];
-	snprintf(tmp, sizeof(tmp), "%" ASN1SCC_PRIu, v);
-	return tmp;
+static const char* UInt2String(asn1SccUint v, char* buf, size_t size) {
+	snprintf(buf, size, "%" ASN1SCC_PRIu, v);
+	return buf;
 }
 
-char* Double2String(double v) {
-	if (fabs(v) < 1e-17)
-		return "0";
-
-	static char tmp[256];
-	int exponent = 0;
-
-	while (fabs(v) >= 10) {
-		v /= 10;
-		exponent++;
-	}
-
-	while (fabs(v) < 1) {
-		v *= 10;
-		exponent--;
-	}
-
-	if (fabs(fabs(v) - llabs((asn1SccSint)v)) < 1e-17) {
-		snprintf(tmp, sizeof(tmp), "%.1fE%d", v, exponent);
-	}
-	else {
-		snprintf(tmp, sizeof(tmp), "%.17gE%d", v, exponent);
+/* the shortest text that reads back as the same value */
+static const char* Double2String(double v, char* buf, size_t size) {
+	char tmp[64];
+	int precision;
+	char* pExp;
+
+	if (isnan(v))
+		return "<NOT-A-NUMBER/>";
+	if (isinf(v))
+		return v > 0 ? "<PLUS-INFINITY/>" : "<MINUS-INFINITY/>";
+	if (v == 0.0)
+		return signbit(v) ? "-0" : "0";
+
+	for (precision = 1; precision < 17; precision++) {
+		snprintf(tmp, sizeof(tmp), "%.*e", precision, v);
+		if (strtod(tmp, NULL) == v)
+			break;
 	}
 
-	return tmp;
+	pExp = strchr(tmp, 'e');
+	*pExp = '\0';
+	snprintf(buf, size, "%sE%d", tmp, atoi(pExp + 1));
+	return buf;
 }
 
 flag GetNextChar(ByteStream* pStrm, char* c) {
@@ -544,12 +540,14 @@ flag Xer_EncodeNull(ByteStream* pByteStrm, const char* elementTag, NullType valu
 
 flag Xer_EncodeInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccSint value, int *pErrCode, int level)
 {
-	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, Int2String(value), pErrCode, level);
+	char tmp[64];
+	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, Int2String(value, tmp, sizeof(tmp)), pErrCode, level);
 }
 
 flag Xer_EncodePosInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccUint value, int *pErrCode, int level)
 {
-	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, UInt2String(value), pErrCode, level);
+	char tmp[64];
+	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, UInt2String(value, tmp, sizeof(tmp)), pErrCode, level);
 }
 
 flag Xer_EncodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag value, int *pErrCode, int level) {
@@ -599,7 +597,8 @@ flag Xer_EncodeEnumerated(ByteStream* pByteStrm, const char* elementTag, const c
 
 flag Xer_EncodeReal(ByteStream* pByteStrm, const char* elementTag, asn1Real value, int *pErrCode, int level)
 {
-	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, Double2String(value), pErrCode, level);
+	char tmp[64];
+	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, Double2String(value, tmp, sizeof(tmp)), pErrCode, level);
 }
 
 flag Xer_EncodeString(ByteStream* pByteStrm, const char* elementTag, const char* value, int *pErrCode, int level)
@@ -804,7 +803,33 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, double* value, int *pErrCode)
 {
 	char tmp[256];
+	long save = pByteStrm->currentByte;
 	memset(tmp, 0x0, sizeof(tmp));
+
+	/* special values are empty elements */
+	if (Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode) && Xer_LA_NextElementTag(pByteStrm, tmp)) {
+		asn1Real special;
+		char name[sizeof(tmp)];
+		if (strcmp(tmp, "PLUS-INFINITY") == 0)
+			special = INFINITY;
+		else if (strcmp(tmp, "MINUS-INFINITY") == 0)
+			special = -INFINITY;
+		else if (strcmp(tmp, "NOT-A-NUMBER") == 0)
+			special = NAN;
+		else {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
+		strcpy(name, tmp);
+		if (!Xer_DecodePrimitiveElement(pByteStrm, name, tmp, sizeof(tmp), pErrCode))
+			return FALSE;
+		if (!Xer_DecodeComplexElementEnd(pByteStrm, elementTag, pErrCode))
+			return FALSE;
+		*value = special;
+		return TRUE;
+	}
+	pByteStrm->currentByte = save;
+
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
 	*value = atof(tmp);
-- 
2.43.0


From 670a443dbfa7062ec885dfe5a9f0736e0b158790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 41/65] fix: XER encoder appended to whatever string was in the
 buffer, and long enumeration names overflowed a temporary

---
 asn1crt/asn1crt_encoding_xer.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index dc8be56..80f8edf 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -97,7 +97,7 @@ flag ByteStream_AppendString(ByteStream* pStrm, const char* v)
 	if (pStrm->currentByte + len >= pStrm->count)
 		return FALSE;
 
-	strcat((char*)&pStrm->buf[pStrm->currentByte], v);
+	memcpy(&pStrm->buf[pStrm->currentByte], v, (size_t)len + 1);
 	pStrm->currentByte += len;
 	return TRUE;
 }
@@ -107,9 +107,9 @@ flag ByteStream_AppendString(ByteStream* pStrm, const char* v)
 #define WORD_ID 1000
 
 flag isPartOfID(char c) {
-	if (isalpha(c))
+	if (isalpha((unsigned char)c))
 		return TRUE;
-	if (isdigit(c))
+	if (isdigit((unsigned char)c))
 		return TRUE;
 	if (c == '.')
 		return TRUE;
@@ -567,12 +567,6 @@ flag Xer_EncodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag value
 
 flag Xer_EncodeEnumerated(ByteStream* pByteStrm, const char* elementTag, const char* value, int *pErrCode, int level)
 {
-	char tmp[256];
-	memset(tmp, 0x0, sizeof(tmp));
-	strcat(tmp, "<");
-	strcat(tmp, value);
-	strcat(tmp, "/>");
-
 	if (elementTag == NULL || strlen(elementTag) == 0)
 		return Xer_EncodePrimitiveElement(pByteStrm, value, "", pErrCode, level);
 
-- 
2.43.0


From 0159c2b6ada5f9a29a7cb27dcf8858ee8ca6745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 42/65] fix: XML attributes in a XER message crashed the
 decoder

---
 asn1crt/asn1crt_encoding_xer.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 80f8edf..4a97601 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -203,13 +203,23 @@ Token LA(ByteStream* pByteStrm) {
 
 
 
-void AddAttribute(XmlAttributeArray* pAttrArray, const char* attr, const char* val)
+/* a NULL array means that the attributes are not wanted */
+static flag AddAttribute(XmlAttributeArray* pAttrArray, const char* attr, const char* val)
 {
-	assert(((unsigned)pAttrArray->nCount) < (sizeof(XmlAttributeArray) - sizeof(int)) / sizeof(XmlAttribute));
+	XmlAttribute* pAttr;
 
-	strcpy(pAttrArray->attrs[pAttrArray->nCount].Name, attr);
-	strcpy(pAttrArray->attrs[pAttrArray->nCount].Value, val);
+	if (pAttrArray == NULL)
+		return TRUE;
+	if (pAttrArray->nCount < 0 || (size_t)pAttrArray->nCount >= sizeof(pAttrArray->attrs) / sizeof(pAttrArray->attrs[0]))
+		return FALSE;
+	pAttr = &pAttrArray->attrs[pAttrArray->nCount];
+	if (strlen(attr) >= sizeof(pAttr->Name) || strlen(val) >= sizeof(pAttr->Value))
+		return FALSE;
+
+	strcpy(pAttr->Name, attr);
+	strcpy(pAttr->Value, val);
 	pAttrArray->nCount++;
+	return TRUE;
 }
 
 /*
@@ -387,7 +397,10 @@ flag Xer_DecodeAttributes(ByteStream* pByteStrm, XmlAttributeArray* pAttrs, int
 			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 			return FALSE;
 		}
-		AddAttribute(pAttrs, t1.Value, t2.Value);
+		if (!AddAttribute(pAttrs, t1.Value, t2.Value)) {
+			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
+			return FALSE;
+		}
 	}
 	return TRUE;
 }
-- 
2.43.0


From 9f732bc5b2e4f75671e1b515bd0292bd27a5d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 43/65] fix: XER decoder accepted numbers that are not numbers
 or do not fit

---
 asn1crt/asn1crt_encoding_xer.c | 65 +++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 4a97601..af3b6ff 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -6,6 +6,7 @@
 #include <ctype.h>
 #include <stdlib.h>
 #include <inttypes.h>
+#include <errno.h>
 
 #include "asn1crt_encoding_xer.h"
 
@@ -733,23 +734,64 @@ flag Xer_DecodeNull(ByteStream* pByteStrm, const char* elementTag, NullType* val
 
 
 
+/* Decodes an element holding one word, which must consist of the given characters only */
+static flag Xer_DecodeWord(ByteStream* pByteStrm, const char* elementTag, char* word, size_t size, const char* allowed, int *pErrCode)
+{
+	char* start = word;
+	size_t len;
+
+	memset(word, 0x0, size);
+	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, word, size, pErrCode))
+		return FALSE;
+
+	while (isspace((unsigned char)*start))
+		start++;
+	len = strlen(start);
+	while (len > 0 && isspace((unsigned char)start[len - 1]))
+		len--;
+	memmove(word, start, len);
+	word[len] = '\0';
+
+	if (len == 0 || strspn(word, allowed) != len) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
+	return TRUE;
+}
+
 flag Xer_DecodeInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccSint* value, int *pErrCode)
 {
 	char tmp[256];
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
+	char* end;
+	long long v;
+
+	if (!Xer_DecodeWord(pByteStrm, elementTag, tmp, sizeof(tmp), "+-0123456789", pErrCode))
+		return FALSE;
+	errno = 0;
+	v = strtoll(tmp, &end, 10);
+	if (end == tmp || *end != '\0' || errno != 0 || (long long)(asn1SccSint)v != v) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
-	*value = atoll(tmp);
+	}
+	*value = (asn1SccSint)v;
 	return TRUE;
 }
 
 flag Xer_DecodePosInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccUint* value, int *pErrCode)
 {
 	char tmp[256];
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
+	char* end;
+	unsigned long long v;
+
+	if (!Xer_DecodeWord(pByteStrm, elementTag, tmp, sizeof(tmp), "0123456789", pErrCode))
 		return FALSE;
-	*value = strtoull(tmp, NULL, 10);
+	errno = 0;
+	v = strtoull(tmp, &end, 10);
+	if (*end != '\0' || errno != 0 || (unsigned long long)(asn1SccUint)v != v) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
+	*value = (asn1SccUint)v;
 	return TRUE;
 }
 
@@ -810,6 +852,8 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, double* value, int *pErrCode)
 {
 	char tmp[256];
+	char* end;
+	double v;
 	long save = pByteStrm->currentByte;
 	memset(tmp, 0x0, sizeof(tmp));
 
@@ -837,9 +881,14 @@ flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, double* value
 	}
 	pByteStrm->currentByte = save;
 
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
+	if (!Xer_DecodeWord(pByteStrm, elementTag, tmp, sizeof(tmp), "+-.0123456789eE", pErrCode))
 		return FALSE;
-	*value = atof(tmp);
+	v = strtod(tmp, &end);
+	if (end == tmp || *end != '\0' || isinf(v)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
+	*value = v;
 	return TRUE;
 }
 
-- 
2.43.0


From 8ef1a8a633c4e3ab3ee6028276a2bb937d062c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 44/65] fix: XER octet and bit strings were decoded past the
 end of the value, through size-limited temporaries, and from any characters

---
 asn1crt/asn1crt_encoding_xer.c | 141 ++++++++++++++++++---------------
 1 file changed, 79 insertions(+), 62 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index af3b6ff..5522f72 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -269,13 +269,14 @@ flag Xer_EncodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 
 
 
-flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, char* pDecodedValue, size_t maxLen, int *pErrCode)
+/*
+<elementTag> or <elementTag/>
+*/
+static flag Xer_DecodePrimitiveElementStart(ByteStream* pByteStrm, const char* elementTag, flag* pbEmpty, int *pErrCode)
 {
-	size_t written = 0;
 	Token t;
-	char c = 0x0;
 
-	strcpy(pDecodedValue, "");
+	*pbEmpty = FALSE;
 	*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 
 	if (NT(pByteStrm).TokenID != '<') {
@@ -290,8 +291,10 @@ flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 	}
 	t = NT(pByteStrm);
 	if (t.TokenID == '/') {
-		if (NT(pByteStrm).TokenID == '>')
+		if (NT(pByteStrm).TokenID == '>') {
+			*pbEmpty = TRUE;
 			return TRUE;
+		}
 		else {
 			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 			return FALSE;
@@ -303,16 +306,22 @@ flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 			return FALSE;
 		}
 	}
+	return TRUE;
+}
 
+flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, char* pDecodedValue, size_t maxLen, int *pErrCode)
+{
+	size_t written = 0;
+	Token t;
+	char c = 0x0;
+	flag bEmpty;
+
+	strcpy(pDecodedValue, "");
+	if (!Xer_DecodePrimitiveElementStart(pByteStrm, elementTag, &bEmpty, pErrCode))
+		return FALSE;
+	if (bEmpty)
+		return TRUE;
 
-	/*
-	t = NT(pByteStrm);
-	strcpy(pDecodedValue, t.Value);
-	if (t.TokenID != WORD_ID) {
-	*pErrCode = ERR_INVALID_XML_FILE;
-	return FALSE;
-	}
-	*/
 	while (c != '<')
 	{
 		if (!GetNextChar(pByteStrm, &c))
@@ -916,41 +925,54 @@ flag CharToNibble(char c, byte* pNibble) {
 	return FALSE;
 }
 
-flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
+/* The next character of the content of an element, without white space; FALSE at the end of it */
+static flag Xer_NextContentChar(ByteStream* pByteStrm, char* c)
 {
-	char tmp[1024];
-	int len = 0;
-	int i;
-	int j = 0;
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
-		return FALSE;
-
-	len = (int)strlen(tmp);
-
-	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
-			continue;
-		tmp[j++] = tmp[i];
+	while (GetNextChar(pByteStrm, c)) {
+		if (*c == '<') {
+			PushBackChar(pByteStrm);
+			return FALSE;
+		}
+		if (!isspace((unsigned char)*c))
+			return TRUE;
 	}
+	return FALSE;
+}
 
-	len = j;
+flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
+{
+	char c;
+	byte nibble;
+	flag bEmpty;
+	long len = 0;
+
+	if (!Xer_DecodePrimitiveElementStart(pByteStrm, elementTag, &bEmpty, pErrCode))
+		return FALSE;
 
-	for (i = 0; i<len && i / 2 < bufferMaxSize; i++) {
-		byte nibble;
-		if (!CharToNibble(tmp[i], &nibble))
+	while (!bEmpty && Xer_NextContentChar(pByteStrm, &c)) {
+		if (len / 2 >= bufferMaxSize || !CharToNibble(c, &nibble)) {
+			*pErrCode = ERR_INVALID_XML_FILE;
 			return FALSE;
-		if (i % 2 == 0) {
-			value[i / 2] = (byte)(nibble << 4);
+		}
+		if (len % 2 == 0) {
+			value[len / 2] = (byte)(nibble << 4);
 		}
 		else {
-			value[i / 2] |= nibble;
+			value[len / 2] |= nibble;
 		}
+		len++;
 	}
+	len = len / 2 + len % 2;
+
+	/* without nCount the size is fixed */
 	if (nCount != NULL)
-		*nCount = len / 2 + len % 2;
+		*nCount = (int)len;
+	else if (len != bufferMaxSize) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
 
-	return TRUE;
+	return bEmpty || Xer_DecodeComplexElementEnd(pByteStrm, elementTag, pErrCode);
 }
 
 
@@ -1010,40 +1032,35 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 
 flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
 {
-	char tmp[2048];
+	char c;
+	flag bEmpty;
 	int len = 0;
-	int i;
-	int bytes;
-	int j = 0;
 
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
+	if (!Xer_DecodePrimitiveElementStart(pByteStrm, elementTag, &bEmpty, pErrCode))
 		return FALSE;
 
-	len = (int)strlen(tmp);
-	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
-			continue;
-		tmp[j++] = tmp[i];
+	/* bufferMaxSize is in bits */
+	while (!bEmpty && Xer_NextContentChar(pByteStrm, &c)) {
+		if (len >= bufferMaxSize || (c != '0' && c != '1')) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
+		if (len % 8 == 0)
+			value[len / 8] = 0;
+		if (c == '1')
+			value[len / 8] |= (byte)(1 << (7 - len % 8));
+		len++;
 	}
-	len = j;
-
-	bytes = len / 8;
-	if (len % 8)
-		bytes++;
-
-	memset(value, 0x0, (size_t)bytes);
 
-
-	for (i = 0; i<len && i / 8 < bufferMaxSize; i++) {
-		byte curVal = (byte)(tmp[i] - '0');
-		int curBit = 7 - i % 8;
-		value[i / 8] |= (byte)(curVal << curBit);
-	}
+	/* without nCount the size is fixed */
 	if (nCount != NULL)
 		*nCount = len;
+	else if (len != bufferMaxSize) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
 
-	return TRUE;
+	return bEmpty || Xer_DecodeComplexElementEnd(pByteStrm, elementTag, pErrCode);
 }
 
 
-- 
2.43.0


From 7807521683a45d5c5696e6ed82000ff590d3beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 45/65] fix: XER OBJECT IDENTIFIER decoding repeated the first
 number and never set the length

---
 asn1crt/asn1crt_encoding_xer.c | 41 ++++++++++++++--------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 5522f72..91df0fe 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -981,34 +981,27 @@ flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte v
 flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, Asn1ObjectIdentifier *pVal, int *pErrCode)
 {
 	char tmp[1024];
-	int len = 0;
-	int i;
-	int j = 0;
-	char delim[] = ".";
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
-		return FALSE;
-
-	len = (int)strlen(tmp);
-
-	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
-			continue;
-		tmp[j++] = tmp[i];
-	}
+	const char* p = tmp;
 
-	len = j;
+	pVal->nCount = 0;
+	if (!Xer_DecodeWord(pByteStrm, elementTag, tmp, sizeof(tmp), ".0123456789", pErrCode))
+		return FALSE;
 
-	char *ptr = strtok(tmp, delim);
-	i = 0;
-	while (ptr != NULL && i < OBJECT_IDENTIFIER_MAX_LENGTH)
-	{
-		pVal->values[i++] = atoll(tmp);
+	for (;;) {
+		char* end;
+		unsigned long long v;
 
-		ptr = strtok(NULL, delim);
+		errno = 0;
+		v = strtoull(p, &end, 10);
+		if (end == p || errno != 0 || (unsigned long long)(asn1SccUint)v != v || pVal->nCount >= OBJECT_IDENTIFIER_MAX_LENGTH) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
+		pVal->values[pVal->nCount++] = (asn1SccUint)v;
+		if (*end == '\0')
+			return TRUE;
+		p = end + 1;
 	}
-
-	return TRUE;
 }
 
 
-- 
2.43.0


From a4bf0967c75af36caefdde0c965f61a3e916f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 46/65] fix: LoadXmlFile reported success after a read error,
 kept bytes of an earlier failed load, and shared buffers between calls

---
 asn1crt/asn1crt_encoding_xer.c | 47 ++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 91df0fe..4bdfd5a 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -1214,8 +1214,6 @@ typedef enum {
 	XmlComment = 6
 } XmlState;
 
-XmlState PreviousState = XmlStart;
-
 flag ByteStream_AppendChar(ByteStream* pStrm, const char v)
 {
 	if (pStrm->currentByte >= pStrm->count)
@@ -1226,10 +1224,10 @@ flag ByteStream_AppendChar(ByteStream* pStrm, const char v)
 	return TRUE;
 }
 
-typedef flag(*OnXmlStateFunc)(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState);
+typedef flag(*OnXmlStateFunc)(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState, XmlState* pPreviousState);
 
 
-flag OnXmlStart(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState)
+flag OnXmlStart(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState, XmlState* pPreviousState)
 {
 	(void)xmlFile;
 	(void)pTmpStrm;
@@ -1241,7 +1239,7 @@ flag OnXmlStart(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xm
 
 	if (l1 == '!') {
 		*pNewState = XmlComment;
-		PreviousState = XmlStart;
+		*pPreviousState = XmlStart;
 		return TRUE;
 	}
 
@@ -1257,8 +1255,9 @@ flag OnXmlStart(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xm
 	return TRUE;
 }
 
-flag OnXmlHeader(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState)
+flag OnXmlHeader(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState, XmlState* pPreviousState)
 {
+	(void)pPreviousState;
 	(void)xmlFile;
 	(void)pTmpStrm;
 	(void)l1;
@@ -1277,8 +1276,9 @@ flag OnXmlHeader(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* x
 }
 
 
-flag OnXmlStartTag(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState)
+flag OnXmlStartTag(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState, XmlState* pPreviousState)
 {
+	(void)pPreviousState;
 	(void)xmlFile;
 	(void)pTmpStrm;
 	(void)l1;
@@ -1294,7 +1294,7 @@ flag OnXmlStartTag(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE*
 	return TRUE;
 }
 
-flag OnXmlContent(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState)
+flag OnXmlContent(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState, XmlState* pPreviousState)
 {
 	(void)xmlFile;
 
@@ -1307,7 +1307,7 @@ flag OnXmlContent(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE*
 	else {
 		if (l1 == '!') {
 			*pNewState = XmlComment;
-			PreviousState = XmlContent;
+			*pPreviousState = XmlContent;
 			return TRUE;
 		}
 
@@ -1334,8 +1334,9 @@ flag OnXmlContent(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE*
 }
 
 
-flag OnXmlEndTag(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState)
+flag OnXmlEndTag(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState, XmlState* pPreviousState)
 {
+	(void)pPreviousState;
 	(void)xmlFile;
 	(void)pTmpStrm;
 	(void)l1;
@@ -1351,7 +1352,7 @@ flag OnXmlEndTag(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* x
 	return TRUE;
 }
 
-flag OnXmlMixedContent(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState)
+flag OnXmlMixedContent(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState, XmlState* pPreviousState)
 {
 	(void)xmlFile;
 	(void)pTmpStrm;
@@ -1363,7 +1364,7 @@ flag OnXmlMixedContent(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, F
 	else {
 		if (l1 == '!') {
 			*pNewState = XmlComment;
-			PreviousState = XmlMixedContent;
+			*pPreviousState = XmlMixedContent;
 			return TRUE;
 		}
 
@@ -1380,14 +1381,14 @@ flag OnXmlMixedContent(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, F
 }
 
 
-flag OnXmlComment(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState)
+flag OnXmlComment(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState, XmlState* pPreviousState)
 {
 	(void)pTmpStrm;
 	(void)pStrm;
 
 	if (c == '-' && l1 == '>') {
 		fgetc(xmlFile); //discard l1 i.e. '>';
-		*pNewState = PreviousState;
+		*pNewState = *pPreviousState;
 	}
 	else {
 		*pNewState = XmlComment;
@@ -1404,28 +1405,36 @@ flag LoadXmlFile(const char* fileName, ByteStream* pStrm, int* nBytesLoaded)
 	int c;
 	int l1;
 	ByteStream tmpStrm;
-	static byte tmpBuffer[TMP_BUFFER_SIZE];
+	byte tmpBuffer[TMP_BUFFER_SIZE];
 	OnXmlStateFunc StateMachine[] = { OnXmlStart, OnXmlHeader, OnXmlStartTag, OnXmlContent, OnXmlEndTag, OnXmlMixedContent, OnXmlComment };
 
 	XmlState curState = XmlStart;
+	XmlState previousState = XmlStart;
+	flag ok;
 
 	FILE* fp = fopen(fileName, "r");
 	ByteStream_Init(&tmpStrm, tmpBuffer, TMP_BUFFER_SIZE);
 
 	if (fp == NULL)
 		return FALSE;
+	pStrm->currentByte = 0;
 	while ((c = fgetc(fp)) != EOF) {
 		l1 = fgetc(fp);
-		ungetc(l1, fp);
-		if (!(StateMachine[curState])(c, l1, pStrm, &tmpStrm, fp, &curState)) {
+		if (l1 != EOF)
+			ungetc(l1, fp);
+		if (!(StateMachine[curState])(c, l1, pStrm, &tmpStrm, fp, &curState, &previousState)) {
 			fclose(fp);
 			return FALSE;
 		}
 	}
+	/* EOF is also what a failed read gives */
+	ok = !ferror(fp);
+	fclose(fp);
+	if (!ok)
+		return FALSE;
 
-	*nBytesLoaded = pStrm->currentByte;
+	*nBytesLoaded = (int)pStrm->currentByte;
 	pStrm->currentByte = 0;
-	fclose(fp);
 	return TRUE;
 
 }
-- 
2.43.0


From 266ae2c6d3001890c41a9680866bd1ac5b060794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 47/65] fix: LoadXmlFile ended a comment at the first '->' in
 it

---
 asn1crt/asn1crt_encoding_xer.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 4bdfd5a..f92ccaa 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -1211,7 +1211,8 @@ typedef enum {
 	XmlContent = 3,
 	XmlEndTag = 4,
 	XmlMixedContent = 5,
-	XmlComment = 6
+	XmlComment = 6,
+	XmlCommentDash = 7
 } XmlState;
 
 flag ByteStream_AppendChar(ByteStream* pStrm, const char v)
@@ -1386,12 +1387,28 @@ flag OnXmlComment(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE*
 	(void)pTmpStrm;
 	(void)pStrm;
 
+	(void)xmlFile;
+	(void)l1;
+	(void)pPreviousState;
+
+	*pNewState = c == '-' ? XmlCommentDash : XmlComment;
+
+	return TRUE;
+}
+
+
+/* in a comment, after a '-': only --> ends it */
+flag OnXmlCommentDash(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE* xmlFile, XmlState* pNewState, XmlState* pPreviousState)
+{
+	(void)pTmpStrm;
+	(void)pStrm;
+
 	if (c == '-' && l1 == '>') {
 		fgetc(xmlFile); //discard l1 i.e. '>';
 		*pNewState = *pPreviousState;
 	}
 	else {
-		*pNewState = XmlComment;
+		*pNewState = c == '-' ? XmlCommentDash : XmlComment;
 	}
 
 
@@ -1406,7 +1423,7 @@ flag LoadXmlFile(const char* fileName, ByteStream* pStrm, int* nBytesLoaded)
 	int l1;
 	ByteStream tmpStrm;
 	byte tmpBuffer[TMP_BUFFER_SIZE];
-	OnXmlStateFunc StateMachine[] = { OnXmlStart, OnXmlHeader, OnXmlStartTag, OnXmlContent, OnXmlEndTag, OnXmlMixedContent, OnXmlComment };
+	OnXmlStateFunc StateMachine[] = { OnXmlStart, OnXmlHeader, OnXmlStartTag, OnXmlContent, OnXmlEndTag, OnXmlMixedContent, OnXmlComment, OnXmlCommentDash };
 
 	XmlState curState = XmlStart;
 	XmlState previousState = XmlStart;
-- 
2.43.0


From 7806e80135323678a1eee28be02845855a4cab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 48/65] fix: '<', '>' and '&' in strings made XER messages that
 could not be decoded

---
 BackendAst/DAstXer.fs          |  4 +-
 asn1crt/asn1crt_encoding_xer.c | 73 +++++++++++++++++++++++++++++++++-
 2 files changed, 74 insertions(+), 3 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index ebfb317..f6f0bdb 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -242,7 +242,9 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
         let xmlTag = xmlTag |> orElse (XerLiteralConstant (if o.isNumeric then "NumericString" else "IA5String"))
         let pp = match codec with CommonTypes.Encode -> lm.lg.getValue p.accessPath | CommonTypes.Decode -> lm.lg.getPointer p.accessPath
         let nLevel = BigInteger (t.id.AcnAbsPath.Length - 2)
-        let contentSize = getMaxSizeInBytesForXER_IA5String o.maxSize.uper
+        // '<', '>' and '&' are written as &lt; &gt; and &amp;
+        let maxCharSize = if o.uperCharSet |> Seq.exists (fun c -> c = '<' || c = '>' || c = '&') then 5I else 1I
+        let contentSize = getMaxSizeInBytesForXER_IA5String (o.maxSize.uper * maxCharSize)
         let totalSize = getMaxSizeInBytesForXER xmlTag contentSize
         let bodyStm = String pp xmlTag.p nLevel (checkExp isValidFunc p) errCode.errCodeName codec
         Some {XERFuncBodyResult.funcBody = bodyStm; errCodes= [errCode]; localVariables=[];encodingSizeInBytes=totalSize}
diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index f92ccaa..5dee264 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -620,7 +620,35 @@ flag Xer_EncodeReal(ByteStream* pByteStrm, const char* elementTag, asn1Real valu
 
 flag Xer_EncodeString(ByteStream* pByteStrm, const char* elementTag, const char* value, int *pErrCode, int level)
 {
-	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, value, pErrCode, level);
+	char tmp[2];
+
+	if (value == NULL || strpbrk(value, "<>&") == NULL)
+		return Xer_EncodePrimitiveElement(pByteStrm, elementTag, value, pErrCode, level);
+
+	/* the characters of the markup are escaped */
+	if (!ByteStream_PutSpace(pByteStrm, level))
+		return FALSE;
+	if (!Xer_EncodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode, -1))
+		return FALSE;
+	tmp[1] = '\0';
+	for (; *value != '\0'; value++) {
+		const char* text = tmp;
+		tmp[0] = *value;
+		if (*value == '<')
+			text = "&lt;";
+		else if (*value == '>')
+			text = "&gt;";
+		else if (*value == '&')
+			text = "&amp;";
+		if (!ByteStream_AppendString(pByteStrm, text))
+			return FALSE;
+	}
+	if (!Xer_EncodeComplexElementEnd(pByteStrm, elementTag, pErrCode, -1))
+		return FALSE;
+	if (level >= 0)
+		if (!ByteStream_PutNL(pByteStrm))
+			return FALSE;
+	return TRUE;
 }
 
 flag Xer_EncodeOctetString(ByteStream* pByteStrm, const char* elementTag, const byte value[], int nCount, int *pErrCode, int level)
@@ -902,9 +930,50 @@ flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, double* value
 }
 
 
+/* the rest of &lt; and the like, after the & */
+static flag Xer_DecodeCharReference(ByteStream* pByteStrm, char* c)
+{
+	static const struct { const char* name; char value; } references[] = { { "lt;", '<' }, { "gt;", '>' }, { "amp;", '&' }, { "quot;", '"' }, { "apos;", '\'' } };
+	size_t i;
+
+	for (i = 0; i < sizeof(references) / sizeof(references[0]); i++) {
+		size_t len = strlen(references[i].name);
+		if (pByteStrm->currentByte + (long)len <= pByteStrm->count && memcmp(&pByteStrm->buf[pByteStrm->currentByte], references[i].name, len) == 0) {
+			pByteStrm->currentByte += (long)len;
+			*c = references[i].value;
+			return TRUE;
+		}
+	}
+	return FALSE;
+}
+
 flag Xer_DecodeString(ByteStream* pByteStrm, const char* elementTag, char* value, size_t valSize, int *pErrCode)
 {
-	return Xer_DecodePrimitiveElement(pByteStrm, elementTag, value, valSize, pErrCode);
+	size_t len = 0;
+	char c;
+	flag bEmpty;
+
+	*value = '\0';
+	if (!Xer_DecodePrimitiveElementStart(pByteStrm, elementTag, &bEmpty, pErrCode))
+		return FALSE;
+	if (bEmpty)
+		return TRUE;
+
+	for (;;) {
+		if (!GetNextChar(pByteStrm, &c))
+			return FALSE;
+		if (c == '<')
+			break;
+		if (len + 1 >= valSize || (c == '&' && !Xer_DecodeCharReference(pByteStrm, &c))) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
+		value[len++] = c;
+		value[len] = '\0';
+	}
+	PushBackChar(pByteStrm);
+
+	return Xer_DecodeComplexElementEnd(pByteStrm, elementTag, pErrCode);
 }
 
 
-- 
2.43.0


From 929e5b1efea58d4a2a27955cbe58a9a550444e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 49/65] fix: XER strings were decoded with the size of a
 pointer as the size of the buffer

---
 BackendAst/DAstXer.fs         | 2 +-
 CommonTypes/AbstractMacros.fs | 2 +-
 StgAda/xer_a.stg              | 4 ++--
 StgC/xer_c.stg                | 6 +++---
 StgScala/xer_scala.stg        | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index f6f0bdb..63628bc 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -246,7 +246,7 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
         let maxCharSize = if o.uperCharSet |> Seq.exists (fun c -> c = '<' || c = '>' || c = '&') then 5I else 1I
         let contentSize = getMaxSizeInBytesForXER_IA5String (o.maxSize.uper * maxCharSize)
         let totalSize = getMaxSizeInBytesForXER xmlTag contentSize
-        let bodyStm = String pp xmlTag.p nLevel (checkExp isValidFunc p) errCode.errCodeName codec
+        let bodyStm = String pp xmlTag.p nLevel o.maxSize.uper (checkExp isValidFunc p) errCode.errCodeName codec
         Some {XERFuncBodyResult.funcBody = bodyStm; errCodes= [errCode]; localVariables=[];encodingSizeInBytes=totalSize}
     let soSparkAnnotations = None
     createXerFunction_any r lm codec t typeDefinition  isValidFunc  funcBody  soSparkAnnotations us
diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index d26e541..209fd2a 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -538,7 +538,7 @@ Generated by the C stg macros with the following command
         abstract member ObjectIdentifier : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member TimeType : p:string -> sTimeSubType:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member Null : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
-        abstract member String : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
+        abstract member String : p:string -> sTag:string -> nLevel:BigInteger -> nSizeMax:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member Enumerated_item : p:string -> sTag:string -> nLevel:BigInteger -> sItemID:string -> sXerValue:string -> sErrCode:string -> bFirst:bool -> codec:Codec -> string;
         abstract member Enumerated : p:string -> sTag:string -> nLevel:BigInteger -> arrsItems:seq<string> -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member OctetString : p:string -> sAcc:string -> sTag:string -> nLevel:BigInteger -> nSizeMax:BigInteger -> bIsFixedSize:bool -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
diff --git a/StgAda/xer_a.stg b/StgAda/xer_a.stg
index 2f63a3f..a19ac2d 100644
--- a/StgAda/xer_a.stg
+++ b/StgAda/xer_a.stg
@@ -150,12 +150,12 @@ ret.ErrorCode := (if ret.Success then 0 else <sErrCode>);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 adaasn1rtl.encoding.xer.Xer_EncodeString(bs, <sTag>, <p>, ret, <nLevel>);
 ret.ErrorCode := <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 adaasn1rtl.encoding.xer.Xer_DecodeString(bs, <sTag>, <p>, ret);
 <if(soCheckExp)><soCheckExp><endif>
 ret.ErrorCode := (if ret.Success then 0 else <sErrCode>);
diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index dc2ad4d..daa8cd9 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -160,13 +160,13 @@ ret = Xer_DecodeNull(pByteStrm, <sTag>, <p>, pErrCode);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_EncodeString(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
-ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, sizeof(<p>), pErrCode);
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
+ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, <nSizeMax> + 1, pErrCode);
 <if(soCheckExp)><soCheckExp><endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
diff --git a/StgScala/xer_scala.stg b/StgScala/xer_scala.stg
index 0703302..51480c3 100644
--- a/StgScala/xer_scala.stg
+++ b/StgScala/xer_scala.stg
@@ -160,12 +160,12 @@ ret = Xer_DecodeNull(pByteStrm, <sTag>, <p>, pErrCode);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_EncodeString(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, sizeof(<p>), pErrCode);
 <if(soCheckExp)><soCheckExp><endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
-- 
2.43.0


From 37a066ed4c3d99919415f41662585b1abdd5999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 50/65] fix: XER decoders accepted malformed integers, unknown
 enumeration names, failed alternatives and short fixed-size lists, and failed
 without an error code

---
 StgC/xer_c.stg | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index daa8cd9..7a3bc7a 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -83,7 +83,11 @@ ret = Xer_EncodeInteger(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 >>
 Integer_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeInteger(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>
+if (ret) {
+    <soCheckExp>
+}
+<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -93,7 +97,11 @@ ret = Xer_EncodePosInteger(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 >>
 IntegerPos_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodePosInteger(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>
+if (ret) {
+    <soCheckExp>
+}
+<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -202,6 +210,7 @@ Enumerated_decode(p, sTag, nLevel, arrsItems, soCheckExp, sErrCode) ::= <<
     if (ret) {
         <arrsItems; separator="\n">
 	    else {
+		    ret = FALSE; /*COVERAGE_IGNORE*/
 		    *pErrCode = <sErrCode>; /*COVERAGE_IGNORE*/
 	    }
     } else {
@@ -277,7 +286,8 @@ if (ret) {
     }
 }
 <if(bFixedSize)>
-*pErrCode = (ret && <sI> == <nSizeMax>) ? 0 : <sErrCode>;
+ret = ret && <sI> == <nSizeMax>;
+*pErrCode = ret ? 0 : <sErrCode>;
 
 <else>
 <if(soCheckExp)><soCheckExp><endif>
@@ -299,6 +309,8 @@ Sequence_mandatory_child_decode(sChName, sChildContent, sChildTag) ::= <<
 ret = Xer_NextStartElementIs(pByteStrm, "<sChildTag>");
 if (ret) {
 	<sChildContent>
+} else {
+	*pErrCode = ERR_INVALID_XML_FILE;
 }
 >>
 
@@ -409,6 +421,8 @@ CHOICE_no_tag_decode(p, sAcc, arrsChildren, sErrCode) ::=<<
             ret = FALSE;
             *pErrCode = <sErrCode>;
         }
+	} else {
+		*pErrCode = <sErrCode>;
 	}
 }
 >>
@@ -433,8 +447,10 @@ ret = Xer_DecodeComplexElementStart(pByteStrm, <sTag>, NULL, pErrCode);
 *pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <sMainBody>
-    ret = Xer_DecodeComplexElementEnd(pByteStrm, <sTag>, pErrCode);
-	*pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        ret = Xer_DecodeComplexElementEnd(pByteStrm, <sTag>, pErrCode);
+        *pErrCode = ret ? 0 : <sErrCode>;
+    }
 }
 >>
 
-- 
2.43.0


From 40e38f5076b15ec408b5678f91f2194d6b5fbf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 51/65] fix: buffers of the advertised size were too small for
 XER OBJECT IDENTIFIERs and some enumerations

---
 BackendAst/DAstXer.fs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index 63628bc..0166931 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -46,11 +46,12 @@ let private aux (s:string) = 2 * (s.Length + 1) + 1 |> BigInteger
 let getMaxSizeInBytesForXER_boolean ()  =  BigInteger ("<false/>".Length)  //<>
 let getMaxSizeInBytesForXER_Integer ()  =  BigInteger (System.Int64.MinValue.ToString().Length)
 let getMaxSizeInBytesForXER_Enumerated (itemNames : string list) =
-    let maxName = itemNames |>  Seq.max
+    let maxName = itemNames |>  Seq.maxBy (fun s -> s.Length)
     aux maxName
 let getMaxSizeInBytesForXER_BitString   maxSize = maxSize * 8I
 let getMaxSizeInBytesForXER_OctetString maxSize = maxSize * 2I
 let getMaxSizeInBytesForXER_Real        = 50I
+let getMaxSizeInBytesForXER_ObjectIdentifier = 20I * 21I  // 20 arcs, each up to 20 digits and a dot
 let getMaxSizeInBytesForXER_NullType    = 0I
 let getMaxSizeInBytesForXER_IA5String   maxSize = maxSize
 let getMaxSizeInBytesForXER_NumericString   maxSize = maxSize
@@ -188,7 +189,7 @@ let createObjectIdentifierFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (c
         let xmlTag = xmlTag |> orElse (XerLiteralConstant "ObjectIdentifier")
         let pp = match codec with CommonTypes.Encode -> lm.lg.getPointer p.accessPath | CommonTypes.Decode -> lm.lg.getPointer p.accessPath
         let nLevel = BigInteger (t.id.AcnAbsPath.Length - 2)
-        let contentSize = getMaxSizeInBytesForXER_Real
+        let contentSize = getMaxSizeInBytesForXER_ObjectIdentifier
         let totalSize = getMaxSizeInBytesForXER xmlTag contentSize
         let bodyStm = ObjectIdentifier pp xmlTag.p nLevel (checkExp isValidFunc p) errCode.errCodeName codec
         Some {XERFuncBodyResult.funcBody = bodyStm; errCodes= [errCode]; localVariables=[];encodingSizeInBytes=totalSize}
-- 
2.43.0


From 75231db8c7b5fd9a67f3e7abf2784a697701ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 52/65] fix: types with an OBJECT IDENTIFIER in them were never
 equal to themselves, so code that does not compile was generated where they
 are used

---
 FrontEndAst/TypesEquivalence.fs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FrontEndAst/TypesEquivalence.fs b/FrontEndAst/TypesEquivalence.fs
index 7971302..223025c 100644
--- a/FrontEndAst/TypesEquivalence.fs
+++ b/FrontEndAst/TypesEquivalence.fs
@@ -12,6 +12,8 @@ let rec uperEquivalence (t1:Asn1Type) (t2:Asn1Type) =
     | NullType _, NullType _                -> true
     | BitString bs1, BitString bs2          -> bs1.cons = bs2.cons
     | Boolean _, Boolean _                  -> true
+    | ObjectIdentifier o1, ObjectIdentifier o2  -> o1.cons = o2.cons && o1.relativeObjectId = o2.relativeObjectId
+    | TimeType t1, TimeType t2              -> t1.cons = t2.cons && t1.timeClass = t2.timeClass
     | Enumerated e1, Enumerated e2          -> e1.items = e2.items &&  e1.cons = e2.cons
     | SequenceOf sqof1, SequenceOf sqof2    -> 
         sqof1.cons = sqof2.cons && (uperEquivalence sqof1.child sqof2.child)
-- 
2.43.0


From 2b6ec5d8c8400eec6b97e6f5f7a89b7354de968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 53/65] fix: quotation marks and backslashes in strings and
 alphabets were taken or written wrongly, so generated checks accepted and
 refused the wrong characters

---
 BackendAst/DAstAsn1.fs                    | 6 +++---
 BackendAst/DAstVariables.fs               | 2 +-
 BackendAst/DastValidate2.fs               | 8 ++++----
 BackendAst/GrammarGenerator.fs            | 2 +-
 BackendAst/PrintAsn1.fs                   | 2 +-
 CommonTypes/CommonTypes.fs                | 5 ++++-
 FrontEndAst/CreateAsn1AstFromAntlrTree.fs | 3 ++-
 FrontEndAst/Language.fs                   | 4 ++++
 StgAda/LangGeneric_a.fs                   | 2 ++
 StgC/LangGeneric_c.fs                     | 2 ++
 StgScala/LangGeneric_scala.fs             | 2 ++
 11 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/BackendAst/DAstAsn1.fs b/BackendAst/DAstAsn1.fs
index d292b07..d7c8603 100644
--- a/BackendAst/DAstAsn1.fs
+++ b/BackendAst/DAstAsn1.fs
@@ -28,7 +28,7 @@ let rec printAsn1Value (v:Asn1AcnAst.Asn1Value) =
     | Asn1AcnAst.RealValue           v       -> stg_asn1.Print_RealValue v.Value
     | Asn1AcnAst.StringValue(parts,_)          ->
         match parts with
-        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue v
+        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue (escapeAsn1String v)
         | _     ->        stg_asn1.Print_SeqOfValue (parts |> List.map(fun p -> p.AsAsn1))
     | Asn1AcnAst.BooleanValue        v       -> stg_asn1.Print_BooleanValue v.Value
     | Asn1AcnAst.BitStringValue      v       -> stg_asn1.Print_BitStringValue v.Value
@@ -107,9 +107,9 @@ let foldStringCon    (c:IA5StringConstraint)  =
         (fun _ e1 e2 s        -> stg_asn1.Print_ExceptConstraint e1 e2, s)
         (fun _ e s            -> stg_asn1.Print_RootConstraint e, s)
         (fun _ e1 e2 s        -> stg_asn1.Print_RootConstraint2 e1 e2, s)
-        (fun _ v  s           -> stg_asn1.Print_SingleValueConstraint (stg_asn1.Print_StringValue v ),s)
+        (fun _ v  s           -> stg_asn1.Print_SingleValueConstraint (stg_asn1.Print_StringValue (escapeAsn1String v)),s)
         (fun _ intCon s       -> foldRangeCon  (fun i -> i.ToString()) (fun i -> i.ToString()) intCon , s)
-        (fun _ alphcon s      -> foldRangeCon  (fun i -> "\"" + i.ToString() + "\"") (fun i -> "\"" + i.ToString() + "\"") alphcon,s)
+        (fun _ alphcon s      -> foldRangeCon  (fun i -> "\"" + (escapeAsn1String (i.ToString())) + "\"") (fun i -> "\"" + (escapeAsn1String (i.ToString())) + "\"") alphcon,s)
         c
         0 |> fst
 
diff --git a/BackendAst/DAstVariables.fs b/BackendAst/DAstVariables.fs
index 3f69700..0f7ee9b 100644
--- a/BackendAst/DAstVariables.fs
+++ b/BackendAst/DAstVariables.fs
@@ -42,7 +42,7 @@ let convertStringValue2TargetLangStringLiteral (lm:LanguageMacros) mxSizeUper (v
         parts |>
         List.map(fun s ->
             match s with
-            | CStringValue  sv -> lm.vars.PrintSingleStringValue (sv.Replace("\"","\"\""))
+            | CStringValue  sv -> lm.vars.PrintSingleStringValue (lm.lg.escapeString sv)
             | SpecialCharacter  CarriageReturn -> lm.vars.PrintCR ()
             | SpecialCharacter  LineFeed       -> lm.vars.PrintLF ()
             | SpecialCharacter  HorizontalTab  -> lm.vars.PrintHT ()
diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index 28bccab..739b417 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -208,21 +208,21 @@ let ia5StringConstraint2ValidationCodeBlock  (r:Asn1AcnAst.AstRoot) (lm:Language
     let stringContainsChar    (v:String)  =
         let newStr =
             if v.Length>1 then
-                v.IDQ
+                (lm.lg.escapeString v).IDQ
             elif v.Length = 1 then
                 let c = v.ToCharArray()[0]
                 if   c = CommonTypes.CharCR  then lm.vars.PrintCR ()
                 elif c = CommonTypes.CharLF  then lm.vars.PrintLF ()
                 elif c = CommonTypes.CharHT  then lm.vars.PrintHT ()
                 elif c = CommonTypes.CharNul then lm.vars.PrintStringValueNull ()
-                else v.IDQ
+                else (lm.lg.escapeString v).IDQ
             else
                 v.IDQ
         lm.isvalid.stringContainsChar newStr
 
     let alphaFuncName = ToC (((typeId.AcnAbsPath |> Seq.skip 1 |> Seq.StrJoin("-")).Replace("#","elm")) + "_CharsAreValid")
     let foldRangeCharCon (lm:LanguageMacros)   (c:CharTypeConstraint)  st =
-        let valToStrFunc1 v = v.ToString().ISQ
+        let valToStrFunc1 (v:char) = lm.lg.charLiteral v
         foldRangeTypeConstraint   (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
             (fun _ (v:string)  s  -> (fun p -> VCBExpression (stringContainsChar v (p.accessPath.joined lm.lg))) ,s)
             (fun _ v1 v2  minIsIn maxIsIn s   ->
@@ -233,7 +233,7 @@ let ia5StringConstraint2ValidationCodeBlock  (r:Asn1AcnAst.AstRoot) (lm:Language
             st
 
     foldStringTypeConstraint2 (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
-        (fun _ v  s         -> (fun p -> VCBExpression (lm.isvalid.ExpStringEqual (p.accessPath.joined lm.lg) v.IDQ))  ,s)
+        (fun _ v  s         -> (fun p -> VCBExpression (lm.isvalid.ExpStringEqual (p.accessPath.joined lm.lg) (lm.lg.escapeString v).IDQ))  ,s)
         (fun _ intCon s     -> foldSizeRangeTypeConstraint r lm (fun l p -> lm.isvalid.StrLen (p.accessPath.joined lm.lg)) intCon s)
         (fun _ alphcon (s:State)      ->
             let alphaBody p =
diff --git a/BackendAst/GrammarGenerator.fs b/BackendAst/GrammarGenerator.fs
index bafaddc..e06dc7b 100644
--- a/BackendAst/GrammarGenerator.fs
+++ b/BackendAst/GrammarGenerator.fs
@@ -129,7 +129,7 @@ let rec printValue (v:Asn1Value) : string =
     match v.Kind with
     |   IntegerValue        v       -> stg_asn1.Print_IntegerValue v.Value
     |   RealValue           v       -> stg_asn1.Print_RealValue v.Value
-    |   StringValue         v       -> stg_asn1.Print_StringValue v.Value
+    |   StringValue         v       -> stg_asn1.Print_StringValue (escapeAsn1String v.Value)
     |   BooleanValue        v       -> stg_asn1.Print_BooleanValue v.Value
     |   BitStringValue      v       -> stg_asn1.Print_BitStringValue v.Value
     |   OctetStringValue    v       -> stg_asn1.Print_OctetStringValue (v |> List.map (fun b -> b.Value))
diff --git a/BackendAst/PrintAsn1.fs b/BackendAst/PrintAsn1.fs
index 23af3bc..d8cb723 100644
--- a/BackendAst/PrintAsn1.fs
+++ b/BackendAst/PrintAsn1.fs
@@ -24,7 +24,7 @@ let rec PrintAsn1Value (v:Asn1Value) =
     |RealValue(v)            -> stg_asn1.Print_RealValue v.Value
     |StringValue(parts,_)          ->
         match parts with
-        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue v
+        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue (escapeAsn1String v)
         | _     ->        stg_asn1.Print_SeqOfValue (parts |> List.map(fun p -> p.AsAsn1))
     |TimeValue v             ->
         stg_asn1.Print_TimeValue (asn1DateTimeValueToString  v.Value)
diff --git a/CommonTypes/CommonTypes.fs b/CommonTypes/CommonTypes.fs
index 10707bf..95acae0 100644
--- a/CommonTypes/CommonTypes.fs
+++ b/CommonTypes/CommonTypes.fs
@@ -1081,6 +1081,9 @@ type SpecialCharacter =
     | HorizontalTab    // The horizontal tabulation (HT) or character tabulation, which in ASCII has the decimal character code of 9
     | NullCharacter    // 0x0
 
+/// a string as it is written between the quotes of an ASN.1 cstring
+let escapeAsn1String (s:string) = s.Replace("\"", "\"\"")
+
 type SingleStringValue =
     | CStringValue  of string
     | SpecialCharacter of SpecialCharacter
@@ -1094,7 +1097,7 @@ type SingleStringValue =
             | SpecialCharacter NullCharacter -> new String(Char.MinValue, 1)
         member this.AsAsn1 =
             match this with
-            | CStringValue  v -> "\"" + v + "\""
+            | CStringValue  v -> "\"" + (escapeAsn1String v) + "\""
             | SpecialCharacter CarriageReturn -> "cr"
             | SpecialCharacter LineFeed -> "lf"
             | SpecialCharacter HorizontalTab -> "ht"
diff --git a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
index ff6095a..fb6cf95 100644
--- a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
+++ b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
@@ -178,7 +178,8 @@ let rec CreateValue integerSizeInBytes (astRoot:list<ITree>) (tree:ITree ) : Res
                 | asn1Parser.TRUE                   -> Ok (BooleanValue(tree.GetValueL true))
                 | asn1Parser.FALSE                  -> Ok (BooleanValue(tree.GetValueL false))
                 | asn1Parser.StringLiteral          ->
-                    let text = tree.Text.Substring(1, tree.Text.Length-2)
+                    // a quotation mark within the string is written as two
+                    let text = tree.Text.Substring(1, tree.Text.Length-2).Replace("\"\"", "\"")
                     Ok (StringValue({ StringLoc.Value = text; Location = tree.Location}))
                 | asn1Parser.NULL                   -> Ok NullValue
                 | asn1Parser.BitStringLiteral       -> Ok (BitStringValue(tree.GetValueL(GetActualString(tree.Text))))
diff --git a/FrontEndAst/Language.fs b/FrontEndAst/Language.fs
index 151477e..82fa4a4 100644
--- a/FrontEndAst/Language.fs
+++ b/FrontEndAst/Language.fs
@@ -324,6 +324,10 @@ type ILangGeneric () =
     abstract member getParamType    : Asn1AcnAst.Asn1Type -> Codec -> CodegenScope;
     abstract member rtlModuleName   : string
     abstract member hasModules      : bool
+    /// the characters of a string as they are written between the quotes of a string literal
+    abstract member escapeString    : string -> string
+    /// a character literal
+    abstract member charLiteral     : char -> string
     abstract member allowsSrcFilesWithNoFunctions : bool
     abstract member requiresValueAssignmentsInSrcFile      : bool
     abstract member requiresHandlingOfEmptySequences : bool
diff --git a/StgAda/LangGeneric_a.fs b/StgAda/LangGeneric_a.fs
index c2ef6dd..8239aa6 100644
--- a/StgAda/LangGeneric_a.fs
+++ b/StgAda/LangGeneric_a.fs
@@ -102,6 +102,8 @@ type LangGeneric_a() =
         override this.TrueLiteral = "True"
         override this.FalseLiteral = "False"
         override this.hasModules = true
+        override this.escapeString s = s.Replace("\"", "\"\"")
+        override this.charLiteral c = sprintf "'%c'" c
         override this.allowsSrcFilesWithNoFunctions = false
         override this.requiresValueAssignmentsInSrcFile = false
         override this.supportsStaticVerification = true
diff --git a/StgC/LangGeneric_c.fs b/StgC/LangGeneric_c.fs
index a13ca7a..2880753 100644
--- a/StgC/LangGeneric_c.fs
+++ b/StgC/LangGeneric_c.fs
@@ -206,6 +206,8 @@ type LangGeneric_c() =
         override _.getValueAssignmentName (vas: ValueAssignment) = vas.c_name
 
         override this.hasModules = false
+        override this.escapeString s = s.Replace("\\", "\\\\").Replace("\"", "\\\"").Replace("\n", "\\n").Replace("\r", "\\r").Replace("\t", "\\t")
+        override this.charLiteral c = if c = '\'' then "'\\''" elif c = '"' then "'\"'" else sprintf "'%s'" (this.escapeString (c.ToString()))
         override this.allowsSrcFilesWithNoFunctions = true
         override this.requiresValueAssignmentsInSrcFile = true
         override this.supportsStaticVerification = false
diff --git a/StgScala/LangGeneric_scala.fs b/StgScala/LangGeneric_scala.fs
index f64129b..c184c46 100644
--- a/StgScala/LangGeneric_scala.fs
+++ b/StgScala/LangGeneric_scala.fs
@@ -256,6 +256,8 @@ type LangGeneric_scala() =
         override _.getValueAssignmentName (vas: ValueAssignment) = vas.scala_name
 
         override this.hasModules = false
+        override this.escapeString s = s.Replace("\\", "\\\\").Replace("\"", "\\\"").Replace("\n", "\\n").Replace("\r", "\\r").Replace("\t", "\\t")
+        override this.charLiteral c = if c = '\'' then "'\\''" elif c = '"' then "'\"'" else sprintf "'%s'" (this.escapeString (c.ToString()))
         override this.allowsSrcFilesWithNoFunctions = true
         override this.requiresValueAssignmentsInSrcFile = true
         override this.supportsStaticVerification = false
-- 
2.43.0


From f9d4bbd82bba5301a62b3ba1230af68710c64ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 54/65] fix: XER NULL elements were accepted with any text in
 them

---
 asn1crt/asn1crt_encoding_xer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 5dee264..1ca69a6 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -763,6 +763,10 @@ flag Xer_DecodeNull(ByteStream* pByteStrm, const char* elementTag, NullType* val
 	memset(tmp, 0x0, sizeof(tmp));
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
+	if (tmp[0] != '\0') {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
 	*value = 0;
 	return TRUE;
 }
-- 
2.43.0


From 127723f0eee6786f2cbf0f0b69171df78cb52c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 55/65] fix: Ada decoders of types without any bits left their
 result undefined, and huge string length determinants raised Constraint_Error

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 4 ++--
 BackendAst/Acn/AcnFunctionWrapper.fs     | 3 +--
 BackendAst/DAstUPer.fs                   | 3 +--
 FrontEndAst/Language.fs                  | 2 ++
 StgAda/LangGeneric_a.fs                  | 4 ++++
 StgC/LangGeneric_c.fs                    | 1 +
 StgScala/LangGeneric_scala.fs            | 1 +
 7 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 13d464f..a24f4b8 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2267,7 +2267,7 @@ is
         ASN1_RESULT'(Success => True, ErrorCode => ERR_INCORRECT_STREAM);
 
       while Result.Success and then I <= strVal'Last - 1
-        and then I <= Integer (extSizeDeterminantFld)
+        and then Asn1Int (I) <= extSizeDeterminantFld
       loop
          pragma Loop_Invariant
            (I >= strVal'First and I <= strVal'Last and
@@ -2320,7 +2320,7 @@ is
         ASN1_RESULT'(Success => True, ErrorCode => ERR_INCORRECT_STREAM);
       strVal := (others => Standard.Ascii.NUL);
       while Result.Success and then I <= strVal'Last - 1
-        and then I <= Integer (extSizeDeterminantFld)
+        and then Asn1Int (I) <= extSizeDeterminantFld
       loop
          pragma Loop_Invariant
            (I >= strVal'First and I <= strVal'Last and
diff --git a/BackendAst/Acn/AcnFunctionWrapper.fs b/BackendAst/Acn/AcnFunctionWrapper.fs
index 3889d91..b5ea125 100644
--- a/BackendAst/Acn/AcnFunctionWrapper.fs
+++ b/BackendAst/Acn/AcnFunctionWrapper.fs
@@ -105,8 +105,7 @@ let createAcnFunction (r: Asn1AcnAst.AstRoot)
                 let bodyResult_funcBody, errCodes,  bodyResult_localVariables, bBsIsUnreferenced, bVarNameIsUnreferenced, udfcs, auxiliaries, icdResult =
                     match content with
                     | None ->
-                        let emptyStatement = lm.lg.emptyStatement
-                        emptyStatement, [], [], true, isValidFuncName.IsNone, [], [], None
+                        lm.lg.emptyFunctionBody codec, [], [], true, isValidFuncName.IsNone, [], [], None
                     | Some bodyResult ->
                         bodyResult.funcBody, bodyResult.errCodes, bodyResult.localVariables, bodyResult.bBsIsUnReferenced, bodyResult.bValIsUnReferenced, bodyResult.userDefinedFunctions, bodyResult.auxiliaries, bodyResult.icdResult
 
diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index c67499a..601ab4c 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -96,8 +96,7 @@ let internal createUperFunction (r:Asn1AcnAst.AstRoot)
                 let bodyResult_funcBody, errCodes,  bodyResult_localVariables, bBsIsUnreferenced, bVarNameIsUnreferenced, auxiliaries =
                     match content with
                     | None              ->
-                        let emptyStatement = lm.lg.emptyStatement
-                        emptyStatement, [], [], true, isValidFuncName.IsNone, []
+                        lm.lg.emptyFunctionBody codec, [], [], true, isValidFuncName.IsNone, []
                     | Some bodyResult   -> bodyResult.funcBody, bodyResult.errCodes, bodyResult.localVariables, bodyResult.bBsIsUnReferenced, bodyResult.bValIsUnReferenced, bodyResult.auxiliaries
                 let lvars = bodyResult_localVariables |> List.map(fun (lv:LocalVariable) -> lm.lg.getLocalVariableDeclaration lv) |> Seq.distinct
                 let precondAnnots = lm.lg.generatePrecond r UPER t codec
diff --git a/FrontEndAst/Language.fs b/FrontEndAst/Language.fs
index 82fa4a4..82e788c 100644
--- a/FrontEndAst/Language.fs
+++ b/FrontEndAst/Language.fs
@@ -338,6 +338,8 @@ type ILangGeneric () =
     abstract member TrueLiteral      :string
     abstract member FalseLiteral     :string
     abstract member emptyStatement   :string
+    /// body of a type assignment function when the type occupies no bits; must leave the result of the function defined
+    abstract member emptyFunctionBody : Codec -> string
     abstract member bitStreamName    :string
     abstract member unaryNotOperator :string
     abstract member modOp            :string
diff --git a/StgAda/LangGeneric_a.fs b/StgAda/LangGeneric_a.fs
index 8239aa6..fd18e7a 100644
--- a/StgAda/LangGeneric_a.fs
+++ b/StgAda/LangGeneric_a.fs
@@ -108,6 +108,10 @@ type LangGeneric_a() =
         override this.requiresValueAssignmentsInSrcFile = false
         override this.supportsStaticVerification = true
         override this.emptyStatement = "null;"
+        override this.emptyFunctionBody (codec:Codec) =
+            match codec with
+            | Encode -> "null;"     // the encoding function has already set the result
+            | Decode -> "result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);"
         override this.bitStreamName = "adaasn1rtl.encoding.BitStreamPtr"
         override this.unaryNotOperator    = "not"
         override this.modOp               = "mod"
diff --git a/StgC/LangGeneric_c.fs b/StgC/LangGeneric_c.fs
index 2880753..ce5ba37 100644
--- a/StgC/LangGeneric_c.fs
+++ b/StgC/LangGeneric_c.fs
@@ -184,6 +184,7 @@ type LangGeneric_c() =
         override this.TrueLiteral = "TRUE"
         override this.FalseLiteral = "FALSE"
         override this.emptyStatement = ""
+        override this.emptyFunctionBody (_:Codec) = ""
         override this.bitStreamName = "BitStream"
         override this.unaryNotOperator    = "!"
         override this.modOp               = "%"
diff --git a/StgScala/LangGeneric_scala.fs b/StgScala/LangGeneric_scala.fs
index c184c46..039be36 100644
--- a/StgScala/LangGeneric_scala.fs
+++ b/StgScala/LangGeneric_scala.fs
@@ -234,6 +234,7 @@ type LangGeneric_scala() =
         override this.TrueLiteral = "true"
         override this.FalseLiteral = "false"
         override this.emptyStatement = ""
+        override this.emptyFunctionBody (_:Codec) = ""
         override this.bitStreamName = "BitStream"
         override this.unaryNotOperator    = "!"
         override this.modOp               = "%"
-- 
2.43.0


From d46d94383c59a93f5ffec562e4ed2a340d302326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 56/65] fix: the Ada run-time library decoded small REAL values
 as zero, overflowed large mantissas and encoded subnormal values differently
 from C

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb |  9 ++++++++-
 ADA_RTL2/src/adaasn1rtl-encoding.adb      | 12 +++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 8aca08c..fa8558b 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -252,8 +252,15 @@ is
       return Asn1Real
    is
       pragma SPARK_Mode (Off);
+      --  the value of any exponent beyond this is zero or infinity
+      Max_Exp : constant Integer  := 10_000;
+      Scale   : constant Positive :=
+        (if base = 16 then 4 elsif base = 8 then 3 else 1);
    begin
-      return (Asn1Real (Factor * N) * Asn1Real (base)**Exp);
+      return
+        Asn1Real'Scaling
+          (Asn1Real (Factor) * Asn1Real (N),
+           Integer'Max (-Max_Exp, Integer'Min (Exp, Max_Exp)) * Scale);
    end CalcReal;
 
    procedure UPER_Dec_Real_AsBinary_aux
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding.adb b/ADA_RTL2/src/adaasn1rtl-encoding.adb
index b59a06c..ad7c389 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding.adb
@@ -95,7 +95,11 @@ is
       --  due to the fact that Examiner has not yet implement the Exponent
       --  attribute
    begin
-      return Asn1Int (Asn1Real'Exponent (V) - Asn1Real'Machine_Mantissa);
+      --  subnormal numbers all have the smallest exponent
+      return
+        Asn1Int
+          (Integer'Max (Asn1Real'Exponent (V), Asn1Real'Machine_Emin) -
+           Asn1Real'Machine_Mantissa);
    end GetExponent;
 
    function GetMantissa (V : Asn1Real) return Asn1UInt is
@@ -103,6 +107,12 @@ is
       --  due to the fact that Examiner has not yet implement the Fraction
       --  attribute
    begin
+      if Asn1Real'Exponent (V) < Asn1Real'Machine_Emin then
+         return
+           Asn1UInt
+             (Asn1Real'Scaling
+                (V, Asn1Real'Machine_Mantissa - Asn1Real'Machine_Emin));
+      end if;
       return Asn1UInt (Asn1Real'Fraction (V) * MantissaFactor);
    end GetMantissa;
 
-- 
2.43.0


From 5f67a2421e6936449dcfa43cfe4dced1d3132266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 57/65] fix: Ada decoders raised exceptions or read wrong
 values for damaged lengths, terminators, REAL and OBJECT IDENTIFIER contents

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb  | 87 +++++++++++++----------
 ADA_RTL2/src/adaasn1rtl-encoding-acn.ads  | 42 ++++++-----
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 10 ++-
 StgAda/acn_a.stg                          | 32 ++++++---
 StgAda/uper_a.stg                         | 11 +--
 asn1crt/asn1crt_encoding.c                |  2 +
 6 files changed, 117 insertions(+), 67 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index a24f4b8..bfcf53d 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -832,7 +832,9 @@ is
    is
       totalNibbles : Integer;
    begin
-      totalNibbles := Get_number_of_digits (IntVal);
+      --  no digits are written for zero, as in the C run-time library
+      totalNibbles :=
+        (if IntVal = 0 then 0 else Get_number_of_digits (IntVal));
       Acn_Enc_Int_BCD_ConstSize (bs, IntVal, totalNibbles);
       BitStream_AppendPartialByte (bs, 16#F#, 4, False);
    end Acn_Enc_Int_BCD_VarSize_NullTerminated;
@@ -1514,8 +1516,8 @@ is
    end Acn_Dec_UInt_ASCII_ConstSize;
 
    procedure Acn_Dec_UInt_ASCII_VarSize_NullTerminated
-     (bs : in out Bitstream; IntVal : out Asn1UInt; nullChars : OctetBuffer;
-      Result :    out ASN1_RESULT)
+     (bs     : in out Bitstream; IntVal : out Asn1UInt; minVal : Asn1UInt;
+      maxVal : Asn1UInt; nullChars : OctetBuffer; Result : out ASN1_RESULT)
    is
       digit    : Asn1Byte;
       intDigit : Integer;
@@ -1571,14 +1573,20 @@ is
            tmp (tmp'First .. tmp'First + (nullChars'Last - nullChars'First));
       end loop;
 
+      Result.Success :=
+        Result.Success
+        and then nullChars (nullChars'First .. nullChars'Last) =
+          tmp (tmp'First .. tmp'First + (nullChars'Last - nullChars'First))
+        and then IntVal >= minVal and then IntVal <= maxVal;
       if not Result.Success then
          Result.ErrorCode := ERR_INCORRECT_STREAM;
+         IntVal           := minVal;
       end if;
    end Acn_Dec_UInt_ASCII_VarSize_NullTerminated;
 
    procedure Acn_Dec_Int_ASCII_VarSize_NullTerminated
-     (bs     : in out Bitstream; IntVal : out Asn1Int; nullChars : OctetBuffer;
-      Result :    out ASN1_RESULT)
+     (bs     : in out Bitstream; IntVal : out Asn1Int; minVal : Asn1Int;
+      maxVal : Asn1Int; nullChars : OctetBuffer; Result : out ASN1_RESULT)
    is
       digitAscii : Asn1Byte;
       Ch         : Character;
@@ -1595,7 +1603,7 @@ is
       Result.Success := Result.Success and (Ch = '+' or Ch = '-');
       if Result.Success then
          Acn_Dec_UInt_ASCII_VarSize_NullTerminated
-           (bs, absIntVal, nullChars, Result);
+           (bs, absIntVal, 0, Asn1UInt'Last, nullChars, Result);
 
          if Result.Success then
             if absIntVal = 0 then
@@ -1611,6 +1619,11 @@ is
             end if;
          end if;
       end if;
+      Result.Success :=
+        Result.Success and then IntVal >= minVal and then IntVal <= maxVal;
+      if not Result.Success then
+         IntVal := minVal;
+      end if;
 
    end Acn_Dec_Int_ASCII_VarSize_NullTerminated;
 
@@ -3037,32 +3050,32 @@ is
    end Acn_Dec_UInt_ASCII_ConstSizeUInt32;
 
    procedure Acn_Dec_Int_ASCII_VarSize_NullTerminatedInt8
-     (bs : in out Bitstream; IntVal : out Integer_8;
-      nullChars : OctetBuffer; Result :    out ASN1_RESULT)
+     (bs     : in out Bitstream; IntVal : out Integer_8; minVal : Integer_8;
+      maxVal : Integer_8; nullChars : OctetBuffer; Result : out ASN1_RESULT)
    is
       v : Asn1Int;
    begin
-      Acn_Dec_Int_ASCII_VarSize_NullTerminated (bs, v,
-             nullChars, Result);
+      Acn_Dec_Int_ASCII_VarSize_NullTerminated (bs, v, Asn1Int (minVal),
+             Asn1Int (maxVal), nullChars, Result);
       Result.Success := Result.Success and then
         Asn1Int (Integer_8'First) <= v and then v <= Asn1Int (Integer_8'Last);
 
       if Result.Success then
          IntVal := Integer_8 (v);
       else
-         IntVal := 0;
+         IntVal := minVal;
       end if;
 
    end Acn_Dec_Int_ASCII_VarSize_NullTerminatedInt8;
 
    procedure Acn_Dec_Int_ASCII_VarSize_NullTerminatedInt16
-     (bs : in out Bitstream; IntVal : out Integer_16;
-      nullChars : OctetBuffer; Result :    out ASN1_RESULT)
+     (bs     : in out Bitstream; IntVal : out Integer_16; minVal : Integer_16;
+      maxVal : Integer_16; nullChars : OctetBuffer; Result : out ASN1_RESULT)
    is
       v : Asn1Int;
    begin
-      Acn_Dec_Int_ASCII_VarSize_NullTerminated (bs, v,
-             nullChars, Result);
+      Acn_Dec_Int_ASCII_VarSize_NullTerminated (bs, v, Asn1Int (minVal),
+             Asn1Int (maxVal), nullChars, Result);
       Result.Success := Result.Success and then
         Asn1Int (Integer_16'First) <= v and then
         v <= Asn1Int (Integer_16'Last);
@@ -3070,19 +3083,19 @@ is
       if Result.Success then
          IntVal := Integer_16 (v);
       else
-         IntVal := 0;
+         IntVal := minVal;
       end if;
 
    end Acn_Dec_Int_ASCII_VarSize_NullTerminatedInt16;
 
    procedure Acn_Dec_Int_ASCII_VarSize_NullTerminatedInt32
-     (bs : in out Bitstream; IntVal : out Integer_32;
-      nullChars : OctetBuffer; Result :    out ASN1_RESULT)
+     (bs     : in out Bitstream; IntVal : out Integer_32; minVal : Integer_32;
+      maxVal : Integer_32; nullChars : OctetBuffer; Result : out ASN1_RESULT)
    is
       v : Asn1Int;
    begin
-      Acn_Dec_Int_ASCII_VarSize_NullTerminated (bs, v,
-                                                nullChars, Result);
+      Acn_Dec_Int_ASCII_VarSize_NullTerminated (bs, v, Asn1Int (minVal),
+             Asn1Int (maxVal), nullChars, Result);
       pragma Warnings
         (Off, "condition can only be False if invalid values present");
       pragma Warnings
@@ -3100,57 +3113,59 @@ is
       if Result.Success then
          IntVal := Integer_32 (v);
       else
-         IntVal := 0;
+         IntVal := minVal;
       end if;
 
    end Acn_Dec_Int_ASCII_VarSize_NullTerminatedInt32;
 
    procedure Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8
-     (bs : in out Bitstream; IntVal : out Unsigned_8;
-      nullChars : OctetBuffer; Result :    out ASN1_RESULT)
+     (bs     : in out Bitstream; IntVal : out Unsigned_8; minVal : Unsigned_8;
+      maxVal : Unsigned_8; nullChars : OctetBuffer; Result : out ASN1_RESULT)
    is
       v : Asn1UInt;
    begin
-      Acn_Dec_UInt_ASCII_VarSize_NullTerminated (bs, v,
-             nullChars, Result);
+      Acn_Dec_UInt_ASCII_VarSize_NullTerminated (bs, v, Asn1UInt (minVal),
+             Asn1UInt (maxVal), nullChars, Result);
       Result.Success := Result.Success and then
         v <= Asn1UInt (Unsigned_8'Last);
 
       if Result.Success then
          IntVal := Unsigned_8 (v);
       else
-         IntVal := 0;
+         IntVal := minVal;
       end if;
 
    end Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8;
 
    procedure Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16
-     (bs : in out Bitstream; IntVal : out Unsigned_16;
-      nullChars : OctetBuffer; Result :    out ASN1_RESULT)
+     (bs     : in out Bitstream; IntVal : out Unsigned_16;
+      minVal : Unsigned_16;
+      maxVal : Unsigned_16; nullChars : OctetBuffer; Result : out ASN1_RESULT)
    is
       v : Asn1UInt;
    begin
-      Acn_Dec_UInt_ASCII_VarSize_NullTerminated (bs, v,
-             nullChars, Result);
+      Acn_Dec_UInt_ASCII_VarSize_NullTerminated (bs, v, Asn1UInt (minVal),
+             Asn1UInt (maxVal), nullChars, Result);
       Result.Success := Result.Success and then
          v <= Asn1UInt (Unsigned_16'Last);
 
       if Result.Success then
          IntVal := Unsigned_16 (v);
       else
-         IntVal := 0;
+         IntVal := minVal;
       end if;
 
    end Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16;
 
    procedure Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32
-     (bs : in out Bitstream; IntVal : out Unsigned_32;
-      nullChars : OctetBuffer; Result :    out ASN1_RESULT)
+     (bs     : in out Bitstream; IntVal : out Unsigned_32;
+      minVal : Unsigned_32;
+      maxVal : Unsigned_32; nullChars : OctetBuffer; Result : out ASN1_RESULT)
    is
       v : Asn1UInt;
    begin
-      Acn_Dec_UInt_ASCII_VarSize_NullTerminated (bs, v,
-                                                 nullChars, Result);
+      Acn_Dec_UInt_ASCII_VarSize_NullTerminated (bs, v, Asn1UInt (minVal),
+             Asn1UInt (maxVal), nullChars, Result);
       pragma Warnings
         (Off, "condition can only be False if invalid values present");
       pragma Warnings
@@ -3167,7 +3182,7 @@ is
       if Result.Success then
          IntVal := Unsigned_32 (v);
       else
-         IntVal := 0;
+         IntVal := minVal;
       end if;
 
    end Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32;
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads b/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
index 8b1ba8d..6ae0a8c 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
@@ -1097,8 +1097,9 @@ is
        (not Result.Success and IntVal = minVal));
 
    procedure Acn_Dec_UInt_ASCII_VarSize_NullTerminated
-     (bs : in out Bitstream; IntVal : out Asn1UInt; nullChars : OctetBuffer;
-      Result :    out ASN1_RESULT) with
+     (bs     : in out Bitstream; IntVal : out Asn1UInt; minVal : Asn1UInt;
+      maxVal : Asn1UInt; nullChars : OctetBuffer;
+      Result : out ASN1_RESULT) with
       Pre => nullChars'Length >= 1 and then nullChars'Length <= 10
       and then nullChars'First = 1
       and then bs.Current_Bit_Pos <
@@ -1111,8 +1112,9 @@ is
         bs'Old.Current_Bit_Pos + 8 * (Max_Int_Digits + nullChars'Length);
 
    procedure Acn_Dec_Int_ASCII_VarSize_NullTerminated
-     (bs     : in out Bitstream; IntVal : out Asn1Int; nullChars : OctetBuffer;
-      Result :    out ASN1_RESULT) with
+     (bs     : in out Bitstream; IntVal : out Asn1Int; minVal : Asn1Int;
+      maxVal : Asn1Int; nullChars : OctetBuffer;
+      Result : out ASN1_RESULT) with
       Pre => nullChars'Length >= 1 and then nullChars'Length < 10
       and then nullChars'First = 1
       and then bs.Current_Bit_Pos <
@@ -2250,8 +2252,9 @@ is
        (not Result.Success and IntVal = minVal));
 
    procedure Acn_Dec_Int_ASCII_VarSize_NullTerminatedInt8
-     (bs : in out Bitstream; IntVal : out Integer_8;
-      nullChars : OctetBuffer; Result :    out ASN1_RESULT) with
+     (bs     : in out Bitstream; IntVal : out Integer_8; minVal : Integer_8;
+      maxVal : Integer_8; nullChars : OctetBuffer;
+      Result : out ASN1_RESULT) with
       Pre => nullChars'Length >= 1 and then nullChars'Length < 10
       and then nullChars'First = 1
       and then bs.Current_Bit_Pos <
@@ -2264,8 +2267,9 @@ is
         bs'Old.Current_Bit_Pos + 8 * (Max_Int_Digits + nullChars'Length + 1);
 
    procedure Acn_Dec_Int_ASCII_VarSize_NullTerminatedInt16
-     (bs : in out Bitstream; IntVal : out Integer_16;
-      nullChars : OctetBuffer; Result :    out ASN1_RESULT) with
+     (bs     : in out Bitstream; IntVal : out Integer_16; minVal : Integer_16;
+      maxVal : Integer_16; nullChars : OctetBuffer;
+      Result : out ASN1_RESULT) with
       Pre => nullChars'Length >= 1 and then nullChars'Length < 10
       and then nullChars'First = 1
       and then bs.Current_Bit_Pos <
@@ -2278,8 +2282,9 @@ is
         bs'Old.Current_Bit_Pos + 8 * (Max_Int_Digits + nullChars'Length + 1);
 
    procedure Acn_Dec_Int_ASCII_VarSize_NullTerminatedInt32
-     (bs : in out Bitstream; IntVal : out Integer_32;
-      nullChars : OctetBuffer; Result :    out ASN1_RESULT) with
+     (bs     : in out Bitstream; IntVal : out Integer_32; minVal : Integer_32;
+      maxVal : Integer_32; nullChars : OctetBuffer;
+      Result : out ASN1_RESULT) with
       Pre => nullChars'Length >= 1 and then nullChars'Length < 10
       and then nullChars'First = 1
       and then bs.Current_Bit_Pos <
@@ -2292,8 +2297,9 @@ is
         bs'Old.Current_Bit_Pos + 8 * (Max_Int_Digits + nullChars'Length + 1);
 
    procedure Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8
-     (bs : in out Bitstream; IntVal : out Unsigned_8;
-     nullChars : OctetBuffer; Result :    out ASN1_RESULT) with
+     (bs     : in out Bitstream; IntVal : out Unsigned_8; minVal : Unsigned_8;
+      maxVal : Unsigned_8; nullChars : OctetBuffer;
+      Result : out ASN1_RESULT) with
       Pre => nullChars'Length >= 1 and then nullChars'Length <= 10
       and then nullChars'First = 1
       and then bs.Current_Bit_Pos <
@@ -2306,8 +2312,10 @@ is
         bs'Old.Current_Bit_Pos + 8 * (Max_Int_Digits + nullChars'Length);
 
    procedure Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16
-     (bs : in out Bitstream; IntVal : out Unsigned_16;
-     nullChars : OctetBuffer; Result :    out ASN1_RESULT) with
+     (bs     : in out Bitstream; IntVal : out Unsigned_16;
+      minVal : Unsigned_16;
+      maxVal : Unsigned_16; nullChars : OctetBuffer;
+      Result : out ASN1_RESULT) with
       Pre => nullChars'Length >= 1 and then nullChars'Length <= 10
       and then nullChars'First = 1
       and then bs.Current_Bit_Pos <
@@ -2320,8 +2328,10 @@ is
         bs'Old.Current_Bit_Pos + 8 * (Max_Int_Digits + nullChars'Length);
 
    procedure Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32
-     (bs : in out Bitstream; IntVal : out Unsigned_32;
-     nullChars : OctetBuffer; Result :    out ASN1_RESULT) with
+     (bs     : in out Bitstream; IntVal : out Unsigned_32;
+      minVal : Unsigned_32;
+      maxVal : Unsigned_32; nullChars : OctetBuffer;
+      Result : out ASN1_RESULT) with
       Pre => nullChars'Length >= 1 and then nullChars'Length <= 10
       and then nullChars'First = 1
       and then bs.Current_Bit_Pos <
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index fa8558b..5113283 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -303,7 +303,11 @@ is
                end if;
 
                Result := ASN1_RESULT'(Success => True, ErrorCode => 0);
+            else
+               Result.Success := False;
             end if;
+         else
+            Result.Success := False;
          end if;
       end if;
    end UPER_Dec_Real_AsBinary_aux;
@@ -394,6 +398,8 @@ is
          else
             Result := ASN1_RESULT'(Success => True, ErrorCode => 0);
          end if;
+      else
+         Result.Success := False;
       end if;
    end UPER_Dec_Real;
 
@@ -446,7 +452,7 @@ is
       UPER_Dec_ConstraintWholeNumberInt
         (bs, length, 0, 255, 8, result.Success);
       if result.Success then
-         if length > 16#80# then
+         if length >= 16#80# then
             length := (length - 16#80#) * 16#100#;
             UPER_Dec_ConstraintWholeNumberInt
               (bs, len2, 0, 255, 8, result.Success);
@@ -566,6 +572,8 @@ is
          i       := i + 1;
 
       end loop;
+      --  the last octet of a subidentifier has its most significant bit clear
+      Result.Success := Result.Success and bLastOctet;
 
    end ObjectIdentifier_subidentifiers_uper_decode;
 
diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 07d75c8..e99604e 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -542,12 +542,12 @@ result.ErrorCode := <sErrCode>;
 ASCII_VarSize_NullTerminated_encode(p, sSsuffix, sErrCode, soMF, soMFM, nUperMin, nUperMax, arruNullBytes) ::= "adaasn1rtl.encoding.acn.Acn_Enc_Int_ASCII_VarSize_NullTerminated(bs, <MFen(soMF=soMF, soMFM=soMFM, p=p)>, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=\", \">));"
 ASCII_VarSize_NullTerminated_decode(p, sSsuffix, sErrCode, soMF, soMFM, nUperMin, nUperMax, arruNullBytes) ::= <<
 <if(soMF)>
-adaasn1rtl.encoding.acn.Acn_Dec_Int_ASCII_VarSize_NullTerminated<sSsuffix>(bs, mapFuncIntVal, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
+adaasn1rtl.encoding.acn.Acn_Dec_Int_ASCII_VarSize_NullTerminated<sSsuffix>(bs, mapFuncIntVal, Asn1Int'First, Asn1Int'Last, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
 result.ErrorCode := <sErrCode>;
 <MF(p=p, soMF=soMF, soMFM=soMFM, nUperMin=nUperMin, nUperMax=nUperMax)>
 
 <else>
-adaasn1rtl.encoding.acn.Acn_Dec_Int_ASCII_VarSize_NullTerminated<sSsuffix>(bs, <p>, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
+adaasn1rtl.encoding.acn.Acn_Dec_Int_ASCII_VarSize_NullTerminated<sSsuffix>(bs, <p>, <nUperMin>, <nUperMax>, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
 result.ErrorCode := <sErrCode>;
 
 <endif>
@@ -557,12 +557,12 @@ result.ErrorCode := <sErrCode>;
 ASCII_UINT_VarSize_NullTerminated_encode(p, sSsuffix, sErrCode, soMF, soMFM, nUperMin, nUperMax, arruNullBytes) ::= "adaasn1rtl.encoding.acn.Acn_Enc_UInt_ASCII_VarSize_NullTerminated(bs, <MFen(soMF=soMF, soMFM=soMFM, p=p)>, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=\", \">));"
 ASCII_UINT_VarSize_NullTerminated_decode(p, sSsuffix, sErrCode, soMF, soMFM, nUperMin, nUperMax, arruNullBytes) ::= <<
 <if(soMF)>
-adaasn1rtl.encoding.acn.Acn_Dec_UInt_ASCII_VarSize_NullTerminated<sSsuffix>(bs, mapFuncIntVal, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
+adaasn1rtl.encoding.acn.Acn_Dec_UInt_ASCII_VarSize_NullTerminated<sSsuffix>(bs, mapFuncIntVal, Asn1UInt'First, Asn1UInt'Last, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
 result.ErrorCode := <sErrCode>;
 <MF(p=p, soMF=soMF, soMFM=soMFM, nUperMin=nUperMin, nUperMax=nUperMax)>
 
 <else>
-adaasn1rtl.encoding.acn.Acn_Dec_UInt_ASCII_VarSize_NullTerminated<sSsuffix>(bs, <p>, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
+adaasn1rtl.encoding.acn.Acn_Dec_UInt_ASCII_VarSize_NullTerminated<sSsuffix>(bs, <p>, <nUperMin>, <nUperMax>, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
 result.ErrorCode := <sErrCode>;
 
 <endif>
@@ -880,6 +880,9 @@ while result.Success and then <i>\<= <nSizeMax> and then not <rtlModuleName()>.e
     <i> := <i> + 1;
 end loop;
 
+<if(noSizeMin)>
+result.Success := result.Success and then <i> - 1 >= <noSizeMin>;
+<endif>
 if result.Success and <i> = <nSizeMax>+1  then
 	-- maximum number of elements was decoded. Makesure that the following bits is the termination pattern
 	result.Success := <rtlModuleName()>.encoding.BitStream_bitPatternMatches(bs,<rtlModuleName()>.OctetBuffer'(<arruNullBytes:{b|<i>=>16#<b;format="X2">#}; wrap, anchor, separator=", ">), <nBitPatternLength>);
@@ -1330,7 +1333,7 @@ adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, tmpBs.Buffer,
 >>
 
 octet_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEncoding, sExtField, sErrCode, soInner) ::= <<
-result := <rtlModuleName()>.ASN1_RESULT'(Success => Integer(<sExtField>) \<= <sReqBytesForUperEncoding>, ErrorCode => <sErrCode>);
+result := <rtlModuleName()>.ASN1_RESULT'(Success => <rtlModuleName()>.Asn1UInt(<sExtField>) \<= <rtlModuleName()>.Asn1UInt(<sReqBytesForUperEncoding>), ErrorCode => <sErrCode>);
 if result.success then
     --decode to the temporary bitstream buffer
 	adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, tmpBs.Buffer, Integer(<sExtField>), result.success);
@@ -1616,7 +1619,7 @@ declare
     tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(<sReqBytesForUperEncoding>);
 begin
 	--decode to a temporary bitstream
-	result := <rtlModuleName()>.ASN1_RESULT'(Success => Integer(<sExtField>) \<= <sReqBitsForUperEncoding>, ErrorCode => <sErrCode>);
+	result := <rtlModuleName()>.ASN1_RESULT'(Success => <rtlModuleName()>.Asn1UInt(<sExtField>) \<= <rtlModuleName()>.Asn1UInt(<sReqBitsForUperEncoding>), ErrorCode => <sErrCode>);
 	if result.success then
 		adaasn1rtl.encoding.BitStream_ReadBits(bs, tmpBs.Buffer, Integer(<sExtField>), result.success);
 		if result.success then
@@ -1709,10 +1712,19 @@ adaasn1rtl.encoding.BitStream_AppendBitArray(bs, <p><sAcc>Data, <p><sAcc>Length)
 >>
 
 bit_string_null_terminated_decode(sTypeDefName, p, sErrCode, sAcc, i, noSizeMin, nSizeMax, arruNullBytes, nBitPatternLength)  ::= <<
-<rtlModuleName()>.encoding.BitStream_ReadBits_nullterminated(bs, <p><sAcc>Data, <p><sAcc>Length, <rtlModuleName()>.OctetBuffer'(<arruNullBytes:{b|<i>=>16#<b;format="X2">#}; wrap, anchor, separator=", ">), <nBitPatternLength>, result.Success);
-if not result.Success then
-    result.errorcode := <sErrCode>;		-- COVERAGE_IGNORE
-end if;
+declare
+    nDecodedBits : Natural;
+begin
+    <rtlModuleName()>.encoding.BitStream_ReadBits_nullterminated(bs, <p><sAcc>Data, nDecodedBits, <rtlModuleName()>.OctetBuffer'(<arruNullBytes:{b|<i>=>16#<b;format="X2">#}; wrap, anchor, separator=", ">), <nBitPatternLength>, result.Success);
+    <if(noSizeMin)>
+    result.Success := result.Success and then nDecodedBits >= <noSizeMin>;
+    <endif>
+    if result.Success then
+        <p><sAcc>Length := nDecodedBits;
+    else
+        result.errorcode := <sErrCode>;		-- COVERAGE_IGNORE
+    end if;
+end;
 >>
 
 bit_string_null_terminated_decode0(p, sErrCode, sAcc, i, noSizeMin, nSizeMax, arruNullBytes, nBitPatternLength) /*nogen*/ ::= <<
diff --git a/StgAda/uper_a.stg b/StgAda/uper_a.stg
index aad5f19..37d23b9 100644
--- a/StgAda/uper_a.stg
+++ b/StgAda/uper_a.stg
@@ -817,6 +817,7 @@ while result.Success AND (<sRemainingItemsVar> = 16#C4# OR <sRemainingItemsVar>
         <sCurBlockSize> := 16#4000#;
     end if;
 
+    result.Success := <sCurOffset> + <sCurBlockSize> - 1 \<= <nSizeMax>;
     <sBLI> := <sCurOffset>;
     while <sBLI>\<= <sCurOffset> + <sCurBlockSize> - 1 AND result.Success loop
     --# assert  <sBLI> >=<sCurOffset> and <sBLI>\<=<sCurOffset> + <sRemainingItemsVar>  and
@@ -826,10 +827,11 @@ while result.Success AND (<sRemainingItemsVar> = 16#C4# OR <sRemainingItemsVar>
     end loop;
     <if(bIsVariableSize)><sLengthTmp> := <sLengthTmp> + <sCurBlockSize>;<endif>
     <sCurOffset> := <sCurOffset> + <sCurBlockSize>;
+    exit when not result.Success;
     adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, <sRemainingItemsVar>, 0, 255, 8, result.Success);
 end loop;
 
-if <sRemainingItemsVar> >= 16#80# then
+if result.Success and <sRemainingItemsVar> >= 16#80# then
     declare
         len2:Integer;
     begin
@@ -841,9 +843,10 @@ if <sRemainingItemsVar> >= 16#80# then
     end;
 end if;
 
-if <sCurOffset> + <sRemainingItemsVar> -1 \<= <nSizeMax> then
+result.Success := result.Success and then <sCurOffset> + <sRemainingItemsVar> -1 \<= <nSizeMax>;
+if result.Success then
     <sBLI> := <sCurOffset>;
-    while <sBLI>\<= <sCurOffset> + <sRemainingItemsVar> -1 loop
+    while <sBLI>\<= <sCurOffset> + <sRemainingItemsVar> -1 AND result.Success loop
     --# assert  <sBLI> >=<sCurOffset> and <sBLI>\<=<sCurOffset> + <sRemainingItemsVar>  and
     --#        K.K>=K~.K and K.K\<=K~.K+8+ <nIntItemMaxSize>*(<sBLI>-1);
         <sInternalItem>
@@ -854,7 +857,7 @@ end if;
 
 <if(bIsVariableSize)>
 
-if <sLengthTmp> >= <nSizeMin> and <sLengthTmp> \<= <nSizeMax> then
+if result.Success and <sLengthTmp> >= <nSizeMin> and <sLengthTmp> \<= <nSizeMax> then
     <if(!bIsAsciiString)>
     <p><sAcc>Length := <sLengthTmp>;
 
diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 7236b65..bbcc5ad 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1262,6 +1262,8 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
+		if ((N >> 56) != 0)
+			return FALSE;	/* the mantissa does not fit */
 		N = N << 8 | b;
 	}
 
-- 
2.43.0


From 6a640333a21a568650e8bf81e4cd1e1243d39bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:34 +0000
Subject: [PATCH 58/65] fix: Ada accepted null-terminated strings without their
 termination pattern

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index bfcf53d..5463850 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2131,6 +2131,7 @@ is
       I : Integer := strVal'First;
       --  ascii code of 'A'. Let's hope that 'A' will never be null Character
       charIndex : Asn1Byte;
+      HasNul    : Boolean := False;
       tmp       : OctetBuffer :=
         OctetBuffer'
           (1 => 0, 2 => 0, 3 => 0, 4 => 0, 5 => 0, 6 => 0, 7 => 0, 8 => 0,
@@ -2182,10 +2183,19 @@ is
          pragma Assert (Result.Success);
 
          strVal (I) := Character'Val (Integer (charIndex));
+         HasNul     := HasNul or charIndex = 0;
 
          I := I + 1;
       end loop;
 
+      --  the termination pattern must be there and no NUL before it
+      Result.Success := Result.Success and then not HasNul
+        and then
+          null_characters (null_characters'First .. null_characters'Last) =
+          tmp
+            (tmp'First ..
+                 tmp'First + (null_characters'Last - null_characters'First));
+
       while I <= strVal'Last loop
          pragma Loop_Invariant (I >= strVal'First and I <= strVal'Last);
          strVal (I) := Standard.Ascii.NUL;
-- 
2.43.0


From 2f581f8012c46055f4864fb150d60669dd3e5672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 59/65] fix: the generated code depended on the user's locale:
 decimal commas, other minus signs and dotless i in C and Ada

---
 asn1scc/Program.fs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1scc/Program.fs b/asn1scc/Program.fs
index 30ab0bb..0a4f6c5 100644
--- a/asn1scc/Program.fs
+++ b/asn1scc/Program.fs
@@ -402,6 +402,10 @@ let setActiveLanguages args =
 
 let main0 argv =
 
+    // the generated code must not depend on the user's locale (decimal comma, minus sign, case of 'i')
+    System.Globalization.CultureInfo.CurrentCulture <- System.Globalization.CultureInfo.InvariantCulture
+    System.Globalization.CultureInfo.DefaultThreadCurrentCulture <- System.Globalization.CultureInfo.InvariantCulture
+
     //RemoveUnusedRtlFunction.test1 ()
     //GenerateRTL.test3 (RemoveUnusedRtlFunction.C_RTL_FUNCTIONS |> List.map fst)
 
-- 
2.43.0


From 4eaa761bdcbbf184b9d7a2a5487a13a86336457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 60/65] fix: a custom template that could not be read
 completely gave empty output files and exit status 0

---
 ST/ST.fs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ST/ST.fs b/ST/ST.fs
index 09f4de7..3fb6e8f 100644
--- a/ST/ST.fs
+++ b/ST/ST.fs
@@ -154,6 +154,17 @@ let runsUnderMono() =
 
 let DollarDelimeterFiles = ["xml"; "icd_uper"; "xml_outputs"]
 
+// a template file that cannot be read completely must not result in incomplete output
+type private LoadErrorListener() =
+    interface IStringTemplateErrorListener with
+        member this.Error (msg, ex) =
+            match ex with
+            | :? antlr.TokenStreamIOException
+            | :? IOException
+            | :? UnauthorizedAccessException    -> raise (UserException (sprintf "%s: %s" msg ex.Message))
+            | _                                 -> StringTemplateGroup.DEFAULT_ERROR_LISTENER.Error(msg, ex)
+        member this.Warning msg = StringTemplateGroup.DEFAULT_ERROR_LISTENER.Warning msg
+
 let get_group  fileName =
     if cache.ContainsKey fileName then
         cache.[fileName]
@@ -167,7 +178,7 @@ let get_group  fileName =
         let stgFoldres = match devFolders |> Seq.forall(fun devFolder -> Directory.Exists devFolder) with
                          | true  -> devFolders @ custFolder @ [ (System.IO.Directory.GetCurrentDirectory ());applicationFolder ]   |> Seq.toArray
                          | false -> custFolder @ [ (System.IO.Directory.GetCurrentDirectory ()); applicationFolder ]  |> Seq.toArray
-        let grpLoader = CommonGroupLoader(StringTemplateGroup.DEFAULT_ERROR_LISTENER, stgFoldres)
+        let grpLoader = CommonGroupLoader(LoadErrorListener(), stgFoldres)
                         
         StringTemplateGroup.RegisterGroupLoader(grpLoader);
         let fileNameNotExt = Path.GetFileNameWithoutExtension(fileName)
-- 
2.43.0


From 287b6987925db5e31cacec6e102b6fd5cc598fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 61/65] fix: a failing daemon request left its response open,
 and a client that went away ended the daemon

---
 Daemon/HttpServer.fs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Daemon/HttpServer.fs b/Daemon/HttpServer.fs
index 74a66b8..637ea86 100644
--- a/Daemon/HttpServer.fs
+++ b/Daemon/HttpServer.fs
@@ -17,11 +17,15 @@ type HttpServer(uri:string) =
 
     let handleRequest (context:HttpListenerContext) handlers = async {
         try
-            let handler = handlers (ExtractCommandPath context.Request.Url.AbsolutePath)
-            handler context
+            try
+                let handler = handlers (ExtractCommandPath context.Request.Url.AbsolutePath)
+                handler context
+            with
+                | _ -> Http.SendError context.Response HttpStatusCode.InternalServerError
             context.Response.Close()
         with
-            | _ -> Http.SendError context.Response HttpStatusCode.InternalServerError
+            // the client is gone, or the response is already under way: no error can be sent any more
+            | _ -> context.Response.Abort()
      }
 
     member this.Serve handlers = 
-- 
2.43.0


From 782f706c5a9a31ffa278ef9e2762c042a90778fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 62/65] fix: stopping the daemon could be missed before it
 served or end the serve loop with an exception

---
 Daemon/HttpServer.fs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Daemon/HttpServer.fs b/Daemon/HttpServer.fs
index 637ea86..d192cc8 100644
--- a/Daemon/HttpServer.fs
+++ b/Daemon/HttpServer.fs
@@ -31,8 +31,6 @@ type HttpServer(uri:string) =
     member this.Serve handlers = 
         listener.Start()
 
-        stopRequested <- false
-
         let asynctask = Async.FromBeginEnd(listener.BeginGetContext,listener.EndGetContext)
         async {
             while not stopRequested do
@@ -41,6 +39,7 @@ type HttpServer(uri:string) =
                     Async.Start (handleRequest context handlers)
                 with
                     | :? HttpListenerException -> ()
+                    | _ when stopRequested -> ()
         } |> Async.RunSynchronously 
 
     member this.Stop = 
-- 
2.43.0


From 6fb400a6c626b582ee53b9bd6887a2c5bbef61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 63/65] fix: a default ACN grammar written only in part was
 kept by every later run

---
 BackendAst/GenerateFiles.fs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BackendAst/GenerateFiles.fs b/BackendAst/GenerateFiles.fs
index 5820349..53412ee 100644
--- a/BackendAst/GenerateFiles.fs
+++ b/BackendAst/GenerateFiles.fs
@@ -382,6 +382,9 @@ let EmitDefaultACNGrammar (r:AstRoot) outDir  =
         else
             let content = f.Modules |> Seq.map printModule |> Seq.StrJoin "\n"
             let fileName = Path.Combine(outDir, fileName)
-            File.WriteAllText(fileName, content.Replace("\r",""))
+            // an existing grammar is never overwritten: a file written only in part must not take its place
+            let partFileName = fileName + ".part"
+            File.WriteAllText(partFileName, content.Replace("\r",""))
+            File.Move(partFileName, fileName, true)
 
     r.Files |> Seq.iter printFile
\ No newline at end of file
-- 
2.43.0


From 955e1da7e492d337fe91b7bf9beff15e52fec0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 64/65] fix: Ada merged the first bits of partial octets with
 what the buffer held before

---
 ADA_RTL2/src/adaasn1rtl-encoding.adb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding.adb b/ADA_RTL2/src/adaasn1rtl-encoding.adb
index ad7c389..aa15f9e 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding.adb
@@ -346,7 +346,7 @@ is
             if totalBitsForNextByte > 0 then
                Current_Byte := Current_Byte + 1;
 
-               mask := not MASKSB (8 - totalBitsForNextByte);
+               mask := MASKSB (8 - totalBitsForNextByte);
 
                bs.Buffer (Current_Byte) := bs.Buffer (Current_Byte) and mask;
                bs.Buffer (Current_Byte) :=
-- 
2.43.0


From 9a996e21a354d8a1a69ffb563f192921abd3d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 65/65] fix: Ada left what the buffer held before in the
 padding of alignments

---
 StgAda/acn_a.stg | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index e99604e..2d86d10 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -167,7 +167,10 @@ MappingFunctionDeclaration_decode(sTypeName, sMF) ::= <<
 alignToNext_encode(sMainBody, sAlignmentValue, nAlignmentValue, nAbsOffset, nRemainingMinBits, nLevel, nIx, nOffset) ::= <<
 --align to next <sAlignmentValue>
 if (bs.Current_Bit_Pos mod <nAlignmentValue>) /= 0 then
-    bs.Current_Bit_Pos := bs.Current_Bit_Pos + (<nAlignmentValue> - (bs.Current_Bit_Pos mod <nAlignmentValue>));
+    for padBit in 1 .. <nAlignmentValue> - (bs.Current_Bit_Pos mod <nAlignmentValue>) loop
+        pragma Loop_Invariant (bs.Current_Bit_Pos = bs.Current_Bit_Pos'Loop_Entry + (padBit - 1));
+        adaasn1rtl.encoding.BitStream_AppendBit(bs, 0);
+    end loop;
 end if;
 <sMainBody>
 >>
-- 
2.43.0

