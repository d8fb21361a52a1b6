From 80be5cb6f1ab195ce744680aa9c0a4cdab4beadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 01/95] fix: write LINEAR texture filters by name instead of
 UNKNOWN

---
 FCollada/FUtils/FUDaeEnum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUDaeEnum.cpp b/FCollada/FUtils/FUDaeEnum.cpp
index 49fd60a..b423991 100644
--- a/FCollada/FUtils/FUDaeEnum.cpp
+++ b/FCollada/FUtils/FUDaeEnum.cpp
@@ -163,6 +163,7 @@ namespace FUDaeTextureFilterFunction
 		{
 		case NONE: return DAE_TEXTURE_FILTER_NONE;
 		case NEAREST: return DAE_TEXTURE_FILTER_NEAREST;
+		case LINEAR: return DAE_TEXTURE_FILTER_LINEAR;
 		case NEAREST_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_NEAR_MIP_NEAR;
 		case LINEAR_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_LIN_MIP_NEAR;
 		case NEAREST_MIPMAP_LINEAR: return DAE_TEXTURE_FILTER_NEAR_MIP_LIN;
-- 
2.43.0


From e9f7e94c07c2282786bb90daf6735733c9ee8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 02/95] fix: give extra attributes a run-time type of their own

---
 FCollada/FCDocument/FCDExtra.cpp | 2 ++
 FCollada/FCDocument/FCDExtra.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/FCollada/FCDocument/FCDExtra.cpp b/FCollada/FCDocument/FCDExtra.cpp
index 6e48491..042ae82 100644
--- a/FCollada/FCDocument/FCDExtra.cpp
+++ b/FCollada/FCDocument/FCDExtra.cpp
@@ -398,6 +398,8 @@ FCDENode* FCDETechnique::Clone(FCDENode* clone) const
 // FCDEAttribute
 //
 
+ImplementObjectType(FCDEAttribute)
+
 FCDEAttribute::FCDEAttribute()
 :	FUParameterizable()
 ,	InitializeParameterNoArg(name)
diff --git a/FCollada/FCDocument/FCDExtra.h b/FCollada/FCDocument/FCDExtra.h
index cfe671a..11dc721 100644
--- a/FCollada/FCDocument/FCDExtra.h
+++ b/FCollada/FCDocument/FCDExtra.h
@@ -491,6 +491,8 @@ public:
 class FCDEAttribute : public FUParameterizable
 {
 private:
+	DeclareObjectType(FUParameterizable, FCDEAttribute)
+
 	DeclareParameter(fm::string, FUParameterQualifiers::SIMPLE, name, FC("Attribute Name")) /**< The attribute name. Must be provided. */
 	DeclareParameter(fstring, FUParameterQualifiers::SIMPLE, value, FC("Attribute Value")) /**< The attribute value. Is optional. */
 
-- 
2.43.0


From 0ae5d893363058af2a8e529a65534570290a5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 03/95] fix: give new NURBS splines a defined (cubic) degree

---
 FCollada/FCDocument/FCDGeometrySpline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDGeometrySpline.cpp b/FCollada/FCDocument/FCDGeometrySpline.cpp
index 54d9fdc..f490519 100644
--- a/FCollada/FCDocument/FCDGeometrySpline.cpp
+++ b/FCollada/FCDocument/FCDGeometrySpline.cpp
@@ -188,6 +188,7 @@ ImplementObjectType(FCDNURBSSpline)
 
 FCDNURBSSpline::FCDNURBSSpline(FCDocument* document)
 :	FCDSpline(document)
+,	degree(3)
 {
 }
 
-- 
2.43.0


From 635e572fd2f47668a469f8ddbbe5a244759ccf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 04/95] fix: clone the wrap modes and filters of effect
 samplers

---
 FCollada/FCDocument/FCDEffectParameterSampler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.cpp b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
index c6f07ce..0ccc62b 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
@@ -74,6 +74,12 @@ FCDEffectParameter* FCDEffectParameterSampler::Clone(FCDEffectParameter* _clone)
 	{
 		clone->surface = const_cast<FCDEffectParameterSurface*>((const FCDEffectParameterSurface*)(surface));
 		clone->samplerType = samplerType;
+		clone->wrap_s = wrap_s;
+		clone->wrap_t = wrap_t;
+		clone->wrap_p = wrap_p;
+		clone->minFilter = minFilter;
+		clone->magFilter = magFilter;
+		clone->mipFilter = mipFilter;
 	}
 	return _clone;
 }
-- 
2.43.0


From 8d6f1743311ecf39a741f1b11f8308230bc9c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 05/95] fix: clone the type, image names and cube face order of
 effect surfaces

---
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index 11d201c..2868a8b 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -160,6 +160,8 @@ FCDEffectParameter* FCDEffectParameterSurface::Clone(FCDEffectParameter* _clone)
 			initMethod->Clone(clone->initMethod);
 		}
 
+		clone->type = type;
+		clone->names = names;
 		clone->size = size;
 		clone->viewportRatio = viewportRatio;
 		clone->mipLevelCount = mipLevelCount;
@@ -236,6 +238,7 @@ FCDEffectParameterSurfaceInit* FCDEffectParameterSurfaceInitCube::Clone(FCDEffec
 	if (clone != NULL)
 	{
 		clone->cubeType = cubeType;
+		clone->order = order;
 	}
 	return clone;
 }
-- 
2.43.0


From 8998090e91f45ab86d2f479251591d0c560e3c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 06/95] fix: clone the platform of effect profiles

---
 FCollada/FCDocument/FCDEffectProfileFX.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEffectProfileFX.cpp b/FCollada/FCDocument/FCDEffectProfileFX.cpp
index c474bfe..035b866 100644
--- a/FCollada/FCDocument/FCDEffectProfileFX.cpp
+++ b/FCollada/FCDocument/FCDEffectProfileFX.cpp
@@ -82,6 +82,7 @@ FCDEffectProfile* FCDEffectProfileFX::Clone(FCDEffectProfile* _clone) const
 	if (clone != NULL)
 	{
 		clone->type = type;
+		clone->platform = platform;
 
 		// Clone the codes: needs to happen before the techniques are cloned.
 		clone->codes.reserve(codes.size());
-- 
2.43.0


From a6a8e194348f32bacd52e898e12cf028fcff7d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 07/95] fix: clone the reflective and refractive switches of
 standard effects

---
 FCollada/FCDocument/FCDEffectStandard.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffectStandard.cpp b/FCollada/FCDocument/FCDEffectStandard.cpp
index 1d497c4..4da5ccd 100644
--- a/FCollada/FCDocument/FCDEffectStandard.cpp
+++ b/FCollada/FCDocument/FCDEffectStandard.cpp
@@ -259,6 +259,8 @@ FCDEffectProfile* FCDEffectStandard::Clone(FCDEffectProfile* _clone) const
 			}
 		}
 		clone->transparencyMode = transparencyMode;
+		clone->isReflective = isReflective;
+		clone->isRefractive = isRefractive;
 
 #define CLONE_ANIMATED(value) clone->value->SetValue(value->GetValue()); if (value->GetValue().IsAnimated()) value->GetValue().GetAnimated()->Clone(clone->value->GetValue().GetAnimated());
 
-- 
2.43.0


From d1881b4b2035fd34a3717f6c67f4036cefd1dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 08/95] fix: clone the name, sub-id and extra tree of entity
 instances

---
 FCollada/FCDocument/FCDEntityInstance.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDEntityInstance.cpp b/FCollada/FCDocument/FCDEntityInstance.cpp
index d884bac..bdf43a8 100644
--- a/FCollada/FCDocument/FCDEntityInstance.cpp
+++ b/FCollada/FCDocument/FCDEntityInstance.cpp
@@ -150,6 +150,9 @@ FCDEntityInstance* FCDEntityInstance::Clone(FCDEntityInstance* clone) const
 	}
 
 	clone->SetEntity(const_cast<FCDEntity*>(entityReference->GetEntity()));
+	clone->name = name;
+	clone->wantedSubId = wantedSubId;
+	if (extra != NULL) extra->Clone(clone->GetExtra());
 	return clone;
 }
 
-- 
2.43.0


From 76655bdd723a0479b49a5706ac0fa64198c16744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 09/95] fix: clone the primitive type and extra tree of polygon
 sets

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 5e411a4..84ef5a7 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -290,6 +290,8 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 	if (clone == NULL) return NULL;
 
 	// Clone the miscellaneous information.
+	clone->primitiveType = primitiveType;
+	if (extra != NULL) extra->Clone(clone->GetExtra());
 	clone->materialSemantic = materialSemantic;
 	clone->faceVertexCounts = faceVertexCounts;
 	clone->faceOffset = faceOffset;
-- 
2.43.0


From a3687b03b783453c5e828a71a16e5ac0db632d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 10/95] fix: attach the cloned effect and clone the technique
 hints of materials

---
 FCollada/FCDocument/FCDMaterial.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDMaterial.cpp b/FCollada/FCDocument/FCDMaterial.cpp
index c7708de..5ffc94f 100644
--- a/FCollada/FCDocument/FCDMaterial.cpp
+++ b/FCollada/FCDocument/FCDMaterial.cpp
@@ -92,6 +92,7 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 				clone->ownsEffect = true;
 				FCDEffect* clonedEffect = clone->GetDocument()->GetEffectLibrary()->AddEntity();
 				_effect->Clone(clonedEffect, cloneChildren);
+				clone->SetEffect(clonedEffect);
 			}
 			else
 			{
@@ -99,6 +100,8 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 			}
 		}
 
+		clone->techniqueHints = techniqueHints;
+
 		// Clone the effect parameters
 		size_t parameterCount = parameters.size();
 		for (size_t p = 0; p < parameterCount; ++p)
-- 
2.43.0


From cb2dbac66c5f8a46ab044dd5cfece7c3c3a78590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 11/95] fix: clone the distance of analytical planes

---
 FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp b/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
index 507377e..84eb40f 100644
--- a/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
+++ b/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
@@ -87,6 +87,7 @@ FCDEntity* FCDPASPlane::Clone(FCDEntity* _clone, bool cloneChildren) const
 	if (clone != NULL)
 	{
 		clone->normal = normal;
+		clone->d = d;
 	}
 	return _clone;
 }
-- 
2.43.0


From 52104094395554ae95bf5f426c75e2a61cf6bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 12/95] fix: copy the density and accuracy switches of rigid
 body parameters

---
 FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
index 03f6fa6..bbaa2e7 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
@@ -77,6 +77,9 @@ void FCDPhysicsRigidBodyParameters::CopyFrom(const FCDPhysicsRigidBodyParameters
 
 	dynamic = original.dynamic;
 	mass = original.mass;
+	density = original.density;
+	isDensityMoreAccurate = original.isDensityMoreAccurate;
+	isInertiaAccurate = original.isInertiaAccurate;
 	inertia = original.inertia;
 	massFrameTranslate = original.massFrameTranslate;
 	massFrameOrientation = original.massFrameOrientation;
-- 
2.43.0


From 6ee98f25c78eb2ba9d39570adb4e2991173933e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 13/95] fix: clone the material instance and the density switch
 of physics shapes

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index ad60a08..4ba1bae 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -123,12 +123,13 @@ FCDPhysicsShape* FCDPhysicsShape::Clone(FCDPhysicsShape* clone) const
 	if (mass != NULL) clone->SetMass(*mass);
 	if (density != NULL) clone->SetDensity(*density);
 	clone->SetHollow(hollow);
+	clone->isDensityMoreAccurate = isDensityMoreAccurate;
 
 	// Clone the material instance
 	if (instanceMaterialRef != NULL)
 	{
 		clone->instanceMaterialRef = FCDEntityInstanceFactory::CreateInstance(clone->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL);
-		instanceMaterialRef->Clone(instanceMaterialRef);
+		instanceMaterialRef->Clone(clone->instanceMaterialRef);
 	}
 	if (physicsMaterial != NULL)
 	{
-- 
2.43.0


From 5038b6e13ed2aaf08c4762605ebbe1d3b4e9cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 14/95] fix: clone the sub-ids of scene nodes and rigid
 constraints

---
 FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp | 1 +
 FCollada/FCDocument/FCDSceneNode.cpp              | 1 +
 2 files changed, 2 insertions(+)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp b/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
index eb4a027..f80d247 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
@@ -83,6 +83,7 @@ FCDEntity* FCDPhysicsRigidConstraint::Clone(FCDEntity* _clone, bool cloneChildre
 
 	if (clone != NULL)
 	{
+		clone->sid = sid;
 		clone->enabled = enabled;
 		clone->interpenetrate = interpenetrate;
 		clone->referenceRigidBody = referenceRigidBody;
diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index fa6a8c6..2403bb2 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -301,6 +301,7 @@ FCDEntity* FCDSceneNode::Clone(FCDEntity* _clone, bool cloneChildren) const
 		// Copy over the simple information.
 		clone->SetJointFlag(GetJointFlag());
 		clone->visibility = visibility;
+		clone->daeSubId = daeSubId;
 
 		// Don't copy the parents list but do clone all the children, transforms and instances
 		for (const FCDTransform** it = transforms.begin(); it != transforms.end(); ++it)
-- 
2.43.0


From ee9054c1962550d9e74d6ba1df76c5eaca5b8a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 15/95] fix: clone the sub-ids of transforms

---
 FCollada/FCDocument/FCDTransform.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDTransform.cpp b/FCollada/FCDocument/FCDTransform.cpp
index 3e0843b..a181207 100644
--- a/FCollada/FCDocument/FCDTransform.cpp
+++ b/FCollada/FCDocument/FCDTransform.cpp
@@ -75,6 +75,7 @@ FCDTransform* FCDTTranslation::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTTranslation::GetClassType())) return _clone;
 	else clone = (FCDTTranslation*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->translation = translation;
 	return clone;
 }
@@ -121,6 +122,7 @@ FCDTransform* FCDTRotation::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTRotation::GetClassType())) return _clone;
 	else clone = (FCDTRotation*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->angleAxis = angleAxis;
 	return clone;
 }
@@ -170,6 +172,7 @@ FCDTransform* FCDTScale::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTScale::GetClassType())) return _clone;
 	else clone = (FCDTScale*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->scale = scale;
 	return clone;
 }
@@ -210,6 +213,7 @@ FCDTransform* FCDTMatrix::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTMatrix::GetClassType())) return _clone;
 	else clone = (FCDTMatrix*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->transform = transform;
 	return clone;
 }
@@ -245,6 +249,7 @@ FCDTransform* FCDTLookAt::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTLookAt::GetClassType())) return _clone;
 	else clone = (FCDTLookAt*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->lookAt = lookAt;
 	return clone;
 }
@@ -287,6 +292,7 @@ FCDTransform* FCDTSkew::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTSkew::GetClassType())) return _clone;
 	else clone = (FCDTSkew*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->skew = skew;
 	return clone;
 }
-- 
2.43.0


From 2eba447718ca70fda501fa370d0d456bed0c83e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 16/95] fix: clone the instances and names of animation clips,
 register clips only once

---
 FCollada/FCDocument/FCDAnimationClip.cpp  |  9 ++++++++-
 FCollada/FCDocument/FCDAnimationCurve.cpp | 12 ++++--------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index 0fe71a6..f7d095a 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -54,6 +54,14 @@ FCDEntity* FCDAnimationClip::Clone(FCDEntity* _clone, bool cloneChildren) const
 		// Copy the generic animation clip parameters
 		clone->start = start;
 		clone->end = end;
+		clone->names = names;
+
+		// Clone the animation instances.
+		for (const FCDEntityInstance** it = animations.begin(); it != animations.end(); ++it)
+		{
+			FCDEntityInstance* instance = clone->AddInstanceAnimation();
+			(*it)->Clone(instance);
+		}
 
 		// If requested, clone the animation curves as well.
 		for (FCDAnimationCurveTrackList::const_iterator it = curves.begin(); it != curves.end(); ++it)
@@ -61,7 +69,6 @@ FCDEntity* FCDAnimationClip::Clone(FCDEntity* _clone, bool cloneChildren) const
 			if (cloneChildren)
 			{
 				FCDAnimationCurve* clonedCurve = (*it)->Clone(NULL, false);
-				clonedCurve->AddClip(clone);
 				clone->AddClipCurve(clonedCurve);
 			}
 		}
diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index ad8c072..a4627da 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -257,20 +257,16 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 	clone->postInfinity = postInfinity;
 	clone->inputDriver = inputDriver;
 	clone->inputDriverIndex = inputDriverIndex;
+	clone->currentOffset = currentOffset;
 
 	if (includeClips)
 	{
 		// Animation clips that depend on this curve
-		for (FCDAnimationClipList::const_iterator it = clips.begin(); it != clips.end(); ++it)
+		for (size_t i = 0; i < clips.size(); ++i)
 		{
-			FCDAnimationClip* clonedClip = (FCDAnimationClip*) (*it)->Clone(0, false);
+			FCDAnimationClip* clonedClip = (FCDAnimationClip*) clips[i]->Clone(0, false);
 			clonedClip->AddClipCurve(clone);
-			clone->AddClip(clonedClip);
-		}
-
-		for (FloatList::const_iterator it = clipOffsets.begin(); it != clipOffsets.end(); ++it)
-		{
-			clone->clipOffsets.push_back(*it);
+			if (i < clipOffsets.size()) clone->clipOffsets.back() = clipOffsets[i];
 		}
 	}
 
-- 
2.43.0


From 8317b64e30a31ee6fe097447c9383c316a795166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 17/95] fix: clone the asset of entities, and whether assets
 set units and up-axis

---
 FCollada/FCDocument/FCDAsset.cpp  | 3 ++-
 FCollada/FCDocument/FCDEntity.cpp | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAsset.cpp b/FCollada/FCDocument/FCDAsset.cpp
index 3a06ae4..e3a4a9e 100644
--- a/FCollada/FCDocument/FCDAsset.cpp
+++ b/FCollada/FCDocument/FCDAsset.cpp
@@ -60,7 +60,8 @@ FCDAsset* FCDAsset::Clone(FCDAsset* clone, bool cloneAllContributors) const
 	clone->upAxis = upAxis;
 	clone->unitName = unitName;
 	clone->unitConversionFactor = unitConversionFactor;
-	clone->SetFlag(TestFlag(FLAG_HasUnits | FLAG_HasUpAxis));
+	clone->SetHasUnitsFlag(GetHasUnitsFlag());
+	clone->SetHasUpAxisFlag(GetHasUpAxisFlag());
 
 	if (cloneAllContributors)
 	{
diff --git a/FCollada/FCDocument/FCDEntity.cpp b/FCollada/FCDocument/FCDEntity.cpp
index 3b974ea..72e78f4 100644
--- a/FCollada/FCDocument/FCDEntity.cpp
+++ b/FCollada/FCDocument/FCDEntity.cpp
@@ -61,6 +61,10 @@ FCDEntity* FCDEntity::Clone(FCDEntity* clone, bool UNUSED(cloneChildren)) const
 	{
 		extra->Clone(clone->extra);
 	}
+	if (asset != NULL)
+	{
+		asset->Clone(clone->GetAsset());
+	}
 	return clone;
 }
 
-- 
2.43.0


From bb494707dc8ae527da76097f0ae08d88462b1a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 18/95] fix: clone cameras as cameras, with their parameters

---
 FCollada/FCDocument/FCDCamera.cpp | 22 ++++++++++++++++++++++
 FCollada/FCDocument/FCDCamera.h   |  8 ++++++++
 2 files changed, 30 insertions(+)

diff --git a/FCollada/FCDocument/FCDCamera.cpp b/FCollada/FCDocument/FCDCamera.cpp
index ea97c8d..5a3f973 100644
--- a/FCollada/FCDocument/FCDCamera.cpp
+++ b/FCollada/FCDocument/FCDCamera.cpp
@@ -38,6 +38,28 @@ FCDCamera::~FCDCamera()
 {
 }
 
+FCDEntity* FCDCamera::Clone(FCDEntity* _clone, bool cloneChildren) const
+{
+	FCDCamera* clone = NULL;
+	if (_clone == NULL) _clone = clone = new FCDCamera(const_cast<FCDocument*>(GetDocument()));
+	else if (_clone->HasType(FCDCamera::GetClassType())) clone = (FCDCamera*) _clone;
+
+	Parent::Clone(_clone, cloneChildren);
+
+	if (clone != NULL)
+	{
+		clone->projection = projection;
+		clone->viewY = viewY;
+		clone->viewX = viewX;
+		clone->aspectRatio = aspectRatio;
+		clone->nearZ = nearZ;
+		clone->farZ = farZ;
+		clone->SetHasHorizontalViewFlag(GetHasHorizontalViewFlag());
+		clone->SetHasVerticalViewFlag(GetHasVerticalViewFlag());
+	}
+	return _clone;
+}
+
 void FCDCamera::SetFovX(float _viewX)
 {
 	viewX = _viewX;
diff --git a/FCollada/FCDocument/FCDCamera.h b/FCollada/FCDocument/FCDCamera.h
index c2acdbf..3a09f0c 100644
--- a/FCollada/FCDocument/FCDCamera.h
+++ b/FCollada/FCDocument/FCDCamera.h
@@ -89,6 +89,14 @@ public:
 		@return The entity type: CAMERA. */
 	virtual Type GetType() const { return CAMERA; }
 
+	/** Clones the camera information.
+		@param clone The cloned camera.
+			If this pointer is NULL, a new camera is created and
+			you will need to release it manually.
+		@param cloneChildren Whether to recursively clone this entity's children.
+		@return The clone. */
+	virtual FCDEntity* Clone(FCDEntity* clone = NULL, bool cloneChildren = false) const;
+
 	/** Retrieves the type of projection of this camera.
 		@return The projection type. */
 	inline ProjectionType GetProjectionType() const { return (ProjectionType) *projection; }
-- 
2.43.0


From 815e4d32ecafdcc44b7f1c1d6aa31e13781974d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 19/95] fix: clone lights as lights, with their parameters

---
 FCollada/FCDocument/FCDLight.cpp | 25 +++++++++++++++++++++++++
 FCollada/FCDocument/FCDLight.h   |  8 ++++++++
 2 files changed, 33 insertions(+)

diff --git a/FCollada/FCDocument/FCDLight.cpp b/FCollada/FCDocument/FCDLight.cpp
index 85fcc66..20559fa 100644
--- a/FCollada/FCDocument/FCDLight.cpp
+++ b/FCollada/FCDocument/FCDLight.cpp
@@ -41,3 +41,28 @@ FCDLight::FCDLight(FCDocument* document)
 FCDLight::~FCDLight()
 {
 }
+
+FCDEntity* FCDLight::Clone(FCDEntity* _clone, bool cloneChildren) const
+{
+	FCDLight* clone = NULL;
+	if (_clone == NULL) _clone = clone = new FCDLight(const_cast<FCDocument*>(GetDocument()));
+	else if (_clone->HasType(FCDLight::GetClassType())) clone = (FCDLight*) _clone;
+
+	Parent::Clone(_clone, cloneChildren);
+
+	if (clone != NULL)
+	{
+		clone->color = color;
+		clone->intensity = intensity;
+		clone->lightType = lightType;
+		clone->constantAttenuationFactor = constantAttenuationFactor;
+		clone->linearAttenuationFactor = linearAttenuationFactor;
+		clone->quadracticAttenuationFactor = quadracticAttenuationFactor;
+		clone->fallOffExponent = fallOffExponent;
+		clone->fallOffAngle = fallOffAngle;
+		clone->outerAngle = outerAngle;
+		clone->penumbraAngle = penumbraAngle;
+		clone->dropoff = dropoff;
+	}
+	return _clone;
+}
diff --git a/FCollada/FCDocument/FCDLight.h b/FCollada/FCDocument/FCDLight.h
index 18d3f57..51762a9 100644
--- a/FCollada/FCDocument/FCDLight.h
+++ b/FCollada/FCDocument/FCDLight.h
@@ -102,6 +102,14 @@ public:
 		@return The entity type: LIGHT. */
 	virtual Type GetType() const { return LIGHT; }
 
+	/** Clones the light information.
+		@param clone The cloned light.
+			If this pointer is NULL, a new light is created and
+			you will need to release it manually.
+		@param cloneChildren Whether to recursively clone this entity's children.
+		@return The clone. */
+	virtual FCDEntity* Clone(FCDEntity* clone = NULL, bool cloneChildren = false) const;
+
 	/** Checks if the light uses a DCC specific representation
 		Currently always returns false.
 		@deprecated Instead use: GetExtra()->GetDefaultType()->GetTechniques()
-- 
2.43.0


From 3e2de0015f720edc9fa30a79bf95f7a2481a0ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 20/95] fix: clone whether animated values are relative

---
 FCollada/FCDocument/FCDAnimated.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimated.cpp b/FCollada/FCDocument/FCDAnimated.cpp
index 20f4ad5..d56a100 100644
--- a/FCollada/FCDocument/FCDAnimated.cpp
+++ b/FCollada/FCDocument/FCDAnimated.cpp
@@ -253,6 +253,7 @@ FCDAnimated* FCDAnimated::Clone(FCDocument* document) const
 	// Clone this animated.
 	FCDAnimated* clone = new FCDAnimated(document, GetValueCount(), cloneQualifiers, cloneValues);
 	clone->arrayElement = arrayElement;
+	clone->SetRelativeAnimationFlag(GetRelativeAnimationFlag());
 	for (size_t i = 0; i < curves.size(); ++i)
 	{
 		for (size_t j = 0; j < curves[i].size(); ++j)
@@ -274,6 +275,7 @@ FCDAnimated* FCDAnimated::Clone(FCDAnimated* clone) const
 	{
 		// Clone the miscellaneous parameters.
 		clone->arrayElement = arrayElement;
+		clone->SetRelativeAnimationFlag(GetRelativeAnimationFlag());
 
 		// Clone the qualifiers and the curve lists for each value.
 		size_t valueCount = min(GetValueCount(), clone->GetValueCount());
-- 
2.43.0


From 03eaa24d713190c07e93f109231b16c9fd41f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 21/95] fix: exported key interpolations are no longer preceded
 by as many unset ones

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 45aeabf..efb8994 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -404,7 +404,7 @@ void FArchiveXML::WriteSourceFCDAnimationCurve(FCDAnimationCurve* animationCurve
 	// Export the data arrays.
 	xmlNode* sourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, parameter);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	fm::vector<FUDaeInterpolation::Interpolation> interpolations_; interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
@@ -606,7 +606,7 @@ void FArchiveXML::WriteSourceFCDAnimationMultiCurve(FCDAnimationMultiCurve* anim
 	// Export the data arrays
 	xmlNode* inputSourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, animationMultiCurve->GetDimension(), parameters);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	fm::vector<FUDaeInterpolation::Interpolation> interpolations_; interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
-- 
2.43.0


From 5abf5404b1ae6cf3e3bcd4741ea9a99792eefa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 22/95] fix: surface mip-map generation flag is exported as
 well as imported

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index a68ce53..8414bc4 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -475,6 +475,11 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 		xmlNode* mipmapLevelsNode = AddChild(surfaceNode, DAE_MIP_LEVELS);
 		AddContent(mipmapLevelsNode, FUStringConversion::ToString(effectParameterSurface->GetMipLevelCount()));
 	}
+	if (effectParameterSurface->IsGenerateMipMaps())
+	{
+		xmlNode* mipmapGenerateNode = AddChild(surfaceNode, DAE_MIPMAP_GENERATE);
+		AddContent(mipmapGenerateNode, FUStringConversion::ToString(effectParameterSurface->IsGenerateMipMaps()));
+	}
 
 	return parameterNode;
 }
-- 
2.43.0


From 7c746a7ce735dbd374a4e60eafe08c0d49f4c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 23/95] fix: a surface without a viewport ratio keeps the
 default ratio on import

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 84a26c5..3448641 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -658,7 +658,7 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 	xmlNode* sizeNode = FindChildByType(surfaceNode, DAE_SIZE_ELEMENT);
 	effectParameterSurface->SetSize(FUStringConversion::ToVector3(ReadNodeContentDirect(sizeNode)));
 	xmlNode* viewportRatioNode = FindChildByType(surfaceNode, DAE_VIEWPORT_RATIO);
-	effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
+	if (viewportRatioNode != NULL) effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
 	xmlNode* mipLevelsNode = FindChildByType(surfaceNode, DAE_MIP_LEVELS);
 	effectParameterSurface->SetMipLevelCount((uint16) FUStringConversion::ToInt32(ReadNodeContentDirect(mipLevelsNode)));
 	xmlNode* mipmapGenerateNode = FindChildByType(surfaceNode, DAE_MIPMAP_GENERATE);
-- 
2.43.0


From 762306424520d1a31590fa724aabe778afb5939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 24/95] fix: skin controller import: stop when the vertex
 weights have no <vcount> or no <v> element

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 2b9e7a0..4fe03ec 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -115,6 +115,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	if (firstCombinerValueNode == NULL)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_ELEMENT, combinerNode->line);
+		return status = false;
 	}
 
 	// Process these inputs
@@ -173,7 +174,8 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	while (vNode != NULL && vNode->type != XML_ELEMENT_NODE) vNode = vNode->next;
 	if (vNode == NULL || !IsEquivalent(vNode->name, DAE_VERTEX_ELEMENT))
 	{
-		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_V_ELEMENT_MISSING, vNode->line);
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_V_ELEMENT_MISSING, combinerNode->line);
+		return status = false;
 	}
 	content = ReadNodeContentDirect(vNode);
 	FUStringConversion::ToInt32List(content, combinerVertexIndices);
-- 
2.43.0


From 829dc07a951dbbfe90b0a10f8fa033fbc4cb1166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 25/95] fix: morph controller import: stop when the <targets>
 element is missing

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 4fe03ec..4663976 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -273,7 +273,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 	{
 		//return status.Fail(FS("Cannot find necessary <targets> element for morph controller: ") + TO_FSTRING(parent->GetDaeId()), morphNode->line);
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_ELEMENT, morphNode->line);
-
+		return status = false;
 	}
 	xmlNodeList inputNodes;
 	FindChildrenByType(targetsNode, DAE_INPUT_ELEMENT, inputNodes);
-- 
2.43.0


From 03510a63bfbc0a33d0d91d9910c0cd67f003a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 26/95] fix: morph controller import: skip the targets that
 cannot be added

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 4663976..5186faf 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -324,6 +324,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_TARGET_GEOMETRY_MISSING, morphNode->line);
 		}
 		FCDMorphTarget* morphTarget = morphController->AddTarget(targetGeometry, weights[i]);
+		if (morphTarget == NULL) continue;
 
 		// Record the morphing weight as animatable
 		// COLLADA has a morph weight array, but FCollada considers each weight independently.
-- 
2.43.0


From 5784d19fe4ab35b6d975de198f054a12adc8462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 27/95] fix: mesh import: report a missing <vertices> element
 without using it

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 79e1d5e..0a56eb2 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -113,11 +113,11 @@ bool FArchiveXML::LoadGeometryMesh(FCDObject* object, xmlNode* meshNode)
 	}
 	if (!hasPositions)
 	{
-		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VP_INPUT_NODE_MISSING, verticesNode->line);
+		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VP_INPUT_NODE_MISSING, (verticesNode != NULL ? verticesNode : meshNode)->line);
 	}
 	if (geometryMesh->GetVertexSourceCount() == 0)
 	{
-		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_GEOMETRY_VERTICES_MISSING, verticesNode->line);
+		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_GEOMETRY_VERTICES_MISSING, (verticesNode != NULL ? verticesNode : meshNode)->line);
 	}
 
 	// Create our rendering object and read in the tessellation
-- 
2.43.0


From 797eef6551a3fdc98bec28212cd9928a7fd34afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 28/95] fix: polygons import: a mesh without position source
 cannot have a polylist

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 0a56eb2..5f53f0c 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -401,8 +401,8 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 			// Count the total number of face-vertices expected, to pre-buffer the index lists
 			// The absolute maximum possible is the number of vertices (That is, a face
 			// that includes every vertex)
-			// We can assume all these ptrs are valid, otherwise we wouldnt get here.
-			size_t nVertices = geometryPolygons->GetParent()->GetPositionSource()->GetValueCount();
+			FCDGeometrySource* positionSource = geometryPolygons->GetParent()->GetPositionSource();
+			size_t nVertices = (positionSource != NULL) ? positionSource->GetValueCount() : 0;
 			expectedVertexCount = 0;
 			for (size_t i = 0; i < vCountCount; ++i)
 			{
-- 
2.43.0


From bbc46d122bfe3ae11c0f04dee7b0255c33ceabc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 29/95] fix: polygons import: stop when none of the inputs
 could be used

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 5f53f0c..336f9d4 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -434,6 +434,13 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		}
 	}
 
+	if (masterIndices == NULL)
+	{
+		// None of the inputs has a valid source: there is nothing to index.
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_NO_VERTEX_INPUT, baseNode->line);
+		return status;
+	}
+
 	// Process the tessellation
 	for (; itNode != NULL; itNode = itNode->next)
 	{
-- 
2.43.0


From ca42a868d7f2ce4c8f7f8128107c935debf7497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 30/95] fix: spline import: skip the splines of unknown type

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 336f9d4..1ca96b0 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -595,6 +595,11 @@ bool FArchiveXML::LoadGeometrySpline(FCDObject* object, xmlNode* splineNode)
 
 		// Read in the typed spline.
 		FCDSpline* spline = geometrySpline->AddSpline();
+		if (spline == NULL)
+		{
+			status = false;
+			continue;
+		}
 		bool s = FArchiveXML::LoadSwitch(spline, &spline->GetObjectType(), splineNode);
 		if (!s)
 		{
-- 
2.43.0


From 419bc365e0de94ef40bc57dc2165e921fadfe812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 31/95] fix: rigid body instance import: a physics model that
 was not found has no rigid body to read

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 46afd30..be1fd8d 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -310,6 +310,12 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 		physicsRigidBodyInstance->SetRigidBody(body);
 	}
 
+	if (body == NULL)
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::WARNING_MISSING_URI_TARGET, instanceNode->line);
+		return false;
+	}
+
 	//Read in the same children as rigid_body + velocity and angular_velocity
 	xmlNode* techniqueNode = FindChildByType(instanceNode, DAE_TECHNIQUE_COMMON_ELEMENT);
 	if (techniqueNode == NULL)
-- 
2.43.0


From c6da2f634186d3cd447c4a32565428c7f55ed9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 32/95] fix: light import: stop when the <technique_common>
 element is missing

---
 FColladaPlugins/FArchiveXML/FAXLightImport.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXLightImport.cpp b/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
index 5495648..f5336d5 100644
--- a/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
@@ -28,6 +28,12 @@ bool FArchiveXML::LoadLight(FCDObject* object, xmlNode* lightNode)
 	// Retrieve the <technique_common> element.
 	xmlNode* commonTechniqueNode = FindChildByType(lightNode, DAE_TECHNIQUE_COMMON_ELEMENT);
 
+	if (commonTechniqueNode == NULL)
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_ELEMENT, lightNode->line);
+		return status = false;
+	}
+
 	// Look for the <point>, <directional>, <spot> or <ambient> element under the common-profile technique
 	xmlNode* lightParameterNode = NULL;
 	for (xmlNode* child = commonTechniqueNode->children; child != NULL; child = child->next)
-- 
2.43.0


From 342fff1ce1fda41072e1c3991097f828f10874e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 33/95] fix: material import: stop when the <instance_effect>
 element is missing

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 3448641..22155cf 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -51,6 +51,7 @@ bool FArchiveXML::LoadMaterial(FCDObject* object, xmlNode* materialNode)
 	if (effectNode == NULL)
 	{
 		FUError::Error(FUError::WARNING_LEVEL, FUError::ERROR_MISSING_ELEMENT, materialNode->line);
+		return status;
 	}
 
 	FUUri url = ReadNodeUrl(effectNode);
-- 
2.43.0


From 758153bde7cb4b82616b790975da7cb49f0f82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 34/95] fix: physics import: an <instance_force_field> creates
 a force field instance even before its target is known

---
 FCollada/FCDocument/FCDPhysicsModelInstance.cpp | 3 ++-
 FCollada/FCDocument/FCDPhysicsScene.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsModelInstance.cpp b/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
index adf13a7..ffea4ed 100644
--- a/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
+++ b/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
@@ -55,7 +55,8 @@ FCDPhysicsRigidConstraintInstance* FCDPhysicsModelInstance::AddRigidConstraintIn
 
 FCDPhysicsForceFieldInstance* FCDPhysicsModelInstance::AddForceFieldInstance(FCDForceField* forceField)
 {
-	FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(GetDocument(), (FCDSceneNode*) NULL, forceField);
+	FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(GetDocument(), (FCDSceneNode*) NULL, FCDEntity::FORCE_FIELD);
+	if (forceField != NULL) instance->SetEntity(forceField);
 	instances.push_back(instance);
 	SetNewChildFlag();
 	return (FCDPhysicsForceFieldInstance*)instance;
diff --git a/FCollada/FCDocument/FCDPhysicsScene.cpp b/FCollada/FCDocument/FCDPhysicsScene.cpp
index 15ddf3c..3c38f4f 100644
--- a/FCollada/FCDocument/FCDPhysicsScene.cpp
+++ b/FCollada/FCDocument/FCDPhysicsScene.cpp
@@ -81,7 +81,8 @@ FCDPhysicsForceFieldInstance* FCDPhysicsScene::AddForceFieldInstance(FCDForceFie
 {
 	FCDPhysicsForceFieldInstance* instance = (FCDPhysicsForceFieldInstance*)
 			FCDEntityInstanceFactory::CreateInstance(
-					GetDocument(), (FCDSceneNode*) NULL, forceField);
+					GetDocument(), (FCDSceneNode*) NULL, FCDEntity::FORCE_FIELD);
+	if (forceField != NULL) instance->SetEntity(forceField);
 	forceFieldInstances.push_back(instance);
 	SetNewChildFlag();
 	return instance;
-- 
2.43.0


From 9c29a3787b7ab235912a3c41ba4f78b30b1e5a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 35/95] fix: a document whose file cannot be opened is reported
 as unreadable

---
 FCollada/FUtils/FUXmlDocument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUXmlDocument.cpp b/FCollada/FUtils/FUXmlDocument.cpp
index 0d88491..03624fe 100644
--- a/FCollada/FUtils/FUXmlDocument.cpp
+++ b/FCollada/FUtils/FUXmlDocument.cpp
@@ -30,7 +30,7 @@ FUXmlDocument::FUXmlDocument(FUFileManager* manager, const fchar* _filename, boo
 		if (manager != NULL) file = manager->OpenFile(filename, FUFile::READ);
 		else file = new FUFile(filename, FUFile::READ);
 
-		if (file->IsOpen())
+		if (file != NULL && file->IsOpen())
 		{
 			size_t fileLength = file->GetLength();
 			uint8* fileData = new uint8[fileLength];
-- 
2.43.0


From db274bbe0b065f95672a10e6bf695ab665e385aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 36/95] fix: the default color and value of a material without
 a common effect profile are not found

---
 FCollada/FCDocument/FCDEffectTools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffectTools.cpp b/FCollada/FCDocument/FCDEffectTools.cpp
index 8fd48cc..874b9ca 100644
--- a/FCollada/FCDocument/FCDEffectTools.cpp
+++ b/FCollada/FCDocument/FCDEffectTools.cpp
@@ -346,7 +346,9 @@ namespace FCDEffectTools
 	{
 		//Find the different classes that are needed.
 		FCDEffect* effect = material->GetEffect();
+		if (effect == NULL) return NULL;
 		FCDEffectProfile* effectProfile = effect->FindProfile(FUDaeProfileType::COMMON);
+		if (effectProfile == NULL) return NULL;
 		FCDEffectStandard* effectStandard = (FCDEffectStandard*) effectProfile;
 		bool isFloat = true;
 
@@ -425,7 +427,9 @@ namespace FCDEffectTools
 	{
 		//Find the different classes that are needed.
 		FCDEffect* effect = material->GetEffect();
+		if (effect == NULL) return NULL;
 		FCDEffectProfile* effectProfile = effect->FindProfile(FUDaeProfileType::COMMON);
+		if (effectProfile == NULL) return NULL;
 		FCDEffectStandard* effectStandard = (FCDEffectStandard*) effectProfile;
 		bool isFloat = true;
 
-- 
2.43.0


From 2788eb5ff3d333163b6af8e009d29dc35d7829de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 37/95] fix: material instances of a controller without
 geometry have no geometry target

---
 FCollada/FCDocument/FCDMaterialInstance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDMaterialInstance.cpp b/FCollada/FCDocument/FCDMaterialInstance.cpp
index 4462ac8..1cb638a 100644
--- a/FCollada/FCDocument/FCDMaterialInstance.cpp
+++ b/FCollada/FCDocument/FCDMaterialInstance.cpp
@@ -92,7 +92,7 @@ FCDObject* FCDMaterialInstance::GetGeometryTarget()
 		{
 			e = ((FCDController*) e)->GetBaseGeometry();
 		}
-		if (e->HasType(FCDGeometry::GetClassType()))
+		if (e != NULL && e->HasType(FCDGeometry::GetClassType()))
 		{
 			FCDGeometry* geometry = (FCDGeometry*) e;
 			if (geometry->IsMesh())
-- 
2.43.0


From 51abf40733067838ad05a78921451316b5511b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 38/95] fix: the volume of a physics shape skips the polygons
 without positions

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 4ba1bae..152855f 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -212,6 +212,7 @@ float FCDPhysicsShape::CalculateVolume() const
 			{
 				const FCDGeometryPolygons* polygons = mesh->GetPolygons(i);
 				const FCDGeometryPolygonsInput* positionInput = polygons->FindInput(FUDaeGeometryInput::POSITION);
+				if (positionInput == NULL) continue;
 				const FCDGeometrySource* positionSource = positionInput->GetSource();
 				uint32 positionStride = positionSource->GetStride();
 				FUAssert(positionStride == 3, continue;);
-- 
2.43.0


From 925478eb962dea87cb40799e6d3b361f0b325d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 39/95] fix: geometry source export: sources that are refused
 have no attributes to write

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 0817dba..3f06c8f 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -46,6 +46,7 @@ xmlNode* FArchiveXML::WriteGeometrySource(FCDObject* object, xmlNode* parentNode
 	case FUDaeGeometryInput::VERTEX: // Refuse to export these sources
 	default: break;
 	}
+	if (sourceNode == NULL) return NULL;
 
 	if (!geometrySource->GetName().empty())
 	{
-- 
2.43.0


From 50f2764aedc331747863eadfbfd12f261e34cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 40/95] fix: surface export: a surface without image has no
 image reference to write

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 8414bc4..90781ad 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -369,12 +369,12 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				if (in->volumeType == FCDEffectParameterSurfaceInitVolume::ALL)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImage(0) != NULL) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				else if (in->volumeType == FCDEffectParameterSurfaceInitVolume::PRIMARY)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_PRIMARY_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImage(0) != NULL) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				break;
 			}
@@ -385,13 +385,13 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				if (in->cubeType == FCDEffectParameterSurfaceInitCube::ALL)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImage(0) != NULL) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				else if (in->cubeType == FCDEffectParameterSurfaceInitCube::PRIMARY)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_PRIMARY_ELEMENT);
 					AddChild(typeNode, DAE_ORDER_ELEMENT); //FIXME: complete when the spec gets more info.
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImage(0) != NULL) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				if (in->cubeType == FCDEffectParameterSurfaceInitCube::FACE)
 				{
@@ -407,7 +407,7 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 			{
 				xmlNode* childNode = AddChild(surfaceNode, DAE_INITPLANAR_ELEMENT);
 				xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-				AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+				if (effectParameterSurface->GetImage(0) != NULL) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				break;
 			}
 			default:
-- 
2.43.0


From 8d2ff5a36eb201edb24fc6699fd85af09dc63692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 41/95] fix: opacity and reflectivity average the three colour
 components

---
 FCollada/FCDocument/FCDEffectStandard.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDEffectStandard.cpp b/FCollada/FCDocument/FCDEffectStandard.cpp
index 4da5ccd..aa92086 100644
--- a/FCollada/FCDocument/FCDEffectStandard.cpp
+++ b/FCollada/FCDocument/FCDEffectStandard.cpp
@@ -227,7 +227,7 @@ FCDTexture* FCDEffectStandard::AddTexture(uint32 bucket)
 float FCDEffectStandard::GetOpacity() const
 {
 	if (transparencyMode == RGB_ZERO)
-		return 1.0f - (translucencyColor->GetValue()->x + translucencyColor->GetValue()->x + translucencyColor->GetValue()->x) / 3.0f * translucencyFactor->GetValue();
+		return 1.0f - (translucencyColor->GetValue()->x + translucencyColor->GetValue()->y + translucencyColor->GetValue()->z) / 3.0f * translucencyFactor->GetValue();
 	else
 		return translucencyColor->GetValue()->w * translucencyFactor->GetValue();
 }
@@ -235,7 +235,7 @@ float FCDEffectStandard::GetOpacity() const
 // Calculate the overall reflectivity for this material
 float FCDEffectStandard::GetReflectivity() const
 {
-	return (reflectivityColor->GetValue()->x + reflectivityColor->GetValue()->x + reflectivityColor->GetValue()->x) / 3.0f * reflectivityFactor->GetValue();
+	return (reflectivityColor->GetValue()->x + reflectivityColor->GetValue()->y + reflectivityColor->GetValue()->z) / 3.0f * reflectivityFactor->GetValue();
 }
 
 // Clone the standard effect
-- 
2.43.0


From b9efec68bbeba634ceab665b5ecb3da0d8cb9fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 42/95] fix: bounding box: a point that lowers the minimum may
 also raise the maximum

---
 FCollada/FUtils/FUBoundingBox.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingBox.cpp b/FCollada/FUtils/FUBoundingBox.cpp
index 4813579..6326ab4 100644
--- a/FCollada/FUtils/FUBoundingBox.cpp
+++ b/FCollada/FUtils/FUBoundingBox.cpp
@@ -106,11 +106,11 @@ void FUBoundingBox::Include(const FUBoundingBox& boundingBox)
 void FUBoundingBox::Include(const FMVector3& point)
 {
 	if (point.x < minimum.x) minimum.x = point.x;
-	else if (point.x > maximum.x) maximum.x = point.x;
+	if (point.x > maximum.x) maximum.x = point.x;
 	if (point.y < minimum.y) minimum.y = point.y;
-	else if (point.y > maximum.y) maximum.y = point.y;
+	if (point.y > maximum.y) maximum.y = point.y;
 	if (point.z < minimum.z) minimum.z = point.z;
-	else if (point.z > maximum.z) maximum.z = point.z;
+	if (point.z > maximum.z) maximum.z = point.z;
 }
 
 FUBoundingBox FUBoundingBox::Transform(const FMMatrix44& transform) const
-- 
2.43.0


From 7039d92f89680ee97ce77c2e67ff6d66a0e4598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 43/95] fix: bounding sphere: the overlap center lies between
 the two centers

---
 FCollada/FUtils/FUBoundingSphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index ce373b0..e6d541c 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -71,7 +71,7 @@ bool FUBoundingSphere::Overlaps(const FUBoundingSphere& boundingSphere, FMVector
 {
 	if (radius >= 0.0f)
 	{
-		FMVector3 centerToCenter = center - boundingSphere.center;
+		FMVector3 centerToCenter = boundingSphere.center - center;
 		float distanceSquared = centerToCenter.LengthSquared();
 		bool overlaps = distanceSquared < (radius + boundingSphere.radius) * (radius + boundingSphere.radius);
 		if (overlaps && overlapCenter != NULL)
-- 
2.43.0


From 14c73cefccd539886318956f8516fe9b8906d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 44/95] fix: bounding sphere: including a sphere yields a
 sphere that contains both

---
 FCollada/FUtils/FUBoundingSphere.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index e6d541c..ce773e8 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -133,10 +133,16 @@ void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 	if (radius >= 0.0f)
 	{
 		float distance = (center - boundingSphere.center).Length();
-		if (distance + boundingSphere.radius > radius)
+		if (distance + radius <= boundingSphere.radius)
 		{
-			center = ((radius + distance / 2.0f) * center + (boundingSphere.radius + distance / 2.0f) * boundingSphere.center) / (radius + boundingSphere.radius + distance);
-			radius = (radius + boundingSphere.radius + distance) / 2.0f;
+			center = boundingSphere.center;
+			radius = boundingSphere.radius;
+		}
+		else if (distance + boundingSphere.radius > radius)
+		{
+			float newRadius = (radius + boundingSphere.radius + distance) / 2.0f;
+			center += (boundingSphere.center - center) * ((newRadius - radius) / distance);
+			radius = newRadius;
 		}
 	}
 	else
-- 
2.43.0


From 514dc75479b1dff416e754a4827ec07e86266a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 45/95] fix: quaternion to Euler angles: the X angle and the
 south pole

---
 FCollada/FMath/FMQuaternion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index 75f03d2..f99f485 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -156,14 +156,14 @@ FMVector3 FMQuaternion::ToEuler(FMVector3* previousAngles) const
 	{
 		angles.y = (float) -FMath::Pi / 2;
 
-		angles.x = -2 * atan2(x,w);
+		angles.x = 2 * atan2(x,w);
 		angles.z = 0;
 	}
 	else
 	{
 		// [GLaforte] Derived on 18-07-2007.
 		angles.y = asinf(siny);
-		angles.x = atan2f((x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
+		angles.x = atan2f(2.0f * (x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
 		angles.z = atan2f(2.0f * (z*w-x*y), 1.0f - 2.0f * (y*y+z*z));
 	}
 
-- 
2.43.0


From c3b17b2a85c44a2ef099ee439b487375802ebb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 46/95] fix: matrix recomposition multiplies the rotations in
 the order the decomposition assumes

---
 FCollada/FMath/FMMatrix44.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FMath/FMMatrix44.cpp b/FCollada/FMath/FMMatrix44.cpp
index 5632bea..9d8dd76 100644
--- a/FCollada/FMath/FMMatrix44.cpp
+++ b/FCollada/FMath/FMMatrix44.cpp
@@ -170,8 +170,8 @@ void FMMatrix44::Decompose(FMVector3& scale, FMVector3& rotation, FMVector3& tra
 
 void FMMatrix44::Recompose(const FMVector3& scale, const FMVector3& rotation, const FMVector3& translation, float inverted)
 {
-	(*this) = FMMatrix44::TranslationMatrix(translation) * FMMatrix44::AxisRotationMatrix(FMVector3::ZAxis, rotation.z)
-		* FMMatrix44::AxisRotationMatrix(FMVector3::YAxis, rotation.y) * FMMatrix44::AxisRotationMatrix(FMVector3::XAxis, rotation.x)
+	(*this) = FMMatrix44::TranslationMatrix(translation) * FMMatrix44::AxisRotationMatrix(FMVector3::XAxis, rotation.x)
+		* FMMatrix44::AxisRotationMatrix(FMVector3::YAxis, rotation.y) * FMMatrix44::AxisRotationMatrix(FMVector3::ZAxis, rotation.z)
 		* FMMatrix44::ScaleMatrix(inverted * scale);
 }
 
-- 
2.43.0


From a6150fce83cfd09a09fc9f4b02aa98cf3d18590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 47/95] fix: camera: the aspect ratio is not divided by a zero
 vertical view

---
 FCollada/FCDocument/FCDCamera.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDCamera.cpp b/FCollada/FCDocument/FCDCamera.cpp
index 5a3f973..8065e3c 100644
--- a/FCollada/FCDocument/FCDCamera.cpp
+++ b/FCollada/FCDocument/FCDCamera.cpp
@@ -63,7 +63,7 @@ FCDEntity* FCDCamera::Clone(FCDEntity* _clone, bool cloneChildren) const
 void FCDCamera::SetFovX(float _viewX)
 {
 	viewX = _viewX;
-	if (GetHasVerticalViewFlag() && !IsEquivalent(viewX, 0.0f)) aspectRatio = viewX / viewY;
+	if (GetHasVerticalViewFlag() && !IsEquivalent(viewY, 0.0f)) aspectRatio = viewX / viewY;
 	SetHasHorizontalViewFlag();
 	SetDirtyFlag();
 }
@@ -71,7 +71,7 @@ void FCDCamera::SetFovX(float _viewX)
 void FCDCamera::SetFovY(float _viewY)
 {
 	viewY = _viewY;
-	if (GetHasHorizontalViewFlag() && !IsEquivalent(viewX, 0.0f)) aspectRatio = viewX / viewY;
+	if (GetHasHorizontalViewFlag() && !IsEquivalent(viewY, 0.0f)) aspectRatio = viewX / viewY;
 	SetHasVerticalViewFlag();
 	SetDirtyFlag();
 }
-- 
2.43.0


From f4f62fdb28848c3362e437f5cfc8ddaf543b6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 48/95] fix: HSV color of a grey has no hue instead of an
 undefined one

---
 FCollada/FMath/FMVector3.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMVector3.cpp b/FCollada/FMath/FMVector3.cpp
index 4ab59c3..1de4f51 100644
--- a/FCollada/FMath/FMVector3.cpp
+++ b/FCollada/FMath/FMVector3.cpp
@@ -97,7 +97,8 @@ FMVector3 FMVector4::ToHSVColor()
 	if (!IsEquivalent(largest, 0.0f))
 	{
 		hsv.y = delta / largest;	// s
-		if (IsEquivalent(x, largest))			hsv.x = (y-z) / delta;			// between yellow & magenta
+		if (IsEquivalent(delta, 0.0f))			hsv.x = 0.0f;					// achromatic
+		else if (IsEquivalent(x, largest))		hsv.x = (y-z) / delta;			// between yellow & magenta
 		else if (IsEquivalent(y, largest))		hsv.x = 2.0f + (z-x) / delta;	// between cyan & yellow
 		else									hsv.x = 4.0f + (x-y) / delta;	// between magenta & cyan
 		hsv.x /= 6.0f;				// convert to [0,1]
-- 
2.43.0


From dfbe09dbf047bae0a15fc48104b26adaa13a2ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 49/95] fix: physics plane equation is written in the order it
 is read

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index b6b8444..3d78512 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -129,8 +129,7 @@ xmlNode* FArchiveXML::WritePASPlane(FCDObject* object, xmlNode* node)
 	FCDPASPlane* pASPlane = (FCDPASPlane*)object;
 
 	xmlNode* geomNode = AddChild(node, DAE_PLANE_ELEMENT);
-	FMVector4 equation;
-	equation.w = pASPlane->normal.x; equation.x = pASPlane->normal.y; equation.y = pASPlane->normal.z; equation.z = pASPlane->d;
+	FMVector4 equation(pASPlane->normal.x, pASPlane->normal.y, pASPlane->normal.z, pASPlane->d);
 	fm::string s = FUStringConversion::ToString(equation);
 	AddChild(geomNode, DAE_EQUATION_ELEMENT, s);
 	return geomNode;
-- 
2.43.0


From 86980b961af744b5cc1fd7be9c67d076ee94449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 50/95] fix: an animated skew is driven by the qualifiers of
 the skew, in the order of its values

---
 FCollada/FCDocument/FCDAnimated.cpp            | 2 +-
 FCollada/FCDocument/FCDParameterAnimatable.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimated.cpp b/FCollada/FCDocument/FCDAnimated.cpp
index d56a100..288e21e 100644
--- a/FCollada/FCDocument/FCDAnimated.cpp
+++ b/FCollada/FCDocument/FCDAnimated.cpp
@@ -360,7 +360,7 @@ namespace FCDAnimatedStandardQualifiers
 	FCOLLADA_EXPORT const char* RGBA[4] = { ".R", ".G", ".B", ".A" };
 
 	FCOLLADA_EXPORT const char* ROTATE_AXIS[4] = { ".X", ".Y", ".Z", ".ANGLE" };
-	FCOLLADA_EXPORT const char* SKEW[7] = { ".ROTATEX", ".ROTATEY", ".ROTATEZ", ".AROUNDX", ".AROUNDY", ".AROUNDZ", ".ANGLE" };
+	FCOLLADA_EXPORT const char* SKEW[7] = { ".ANGLE", ".ROTATEX", ".ROTATEY", ".ROTATEZ", ".AROUNDX", ".AROUNDY", ".AROUNDZ" };
 	FCOLLADA_EXPORT const char* MATRIX[16] = { "(0)(0)", "(1)(0)", "(2)(0)", "(3)(0)", "(0)(1)", "(1)(1)", "(2)(1)", "(3)(1)", "(0)(2)", "(1)(2)", "(2)(2)", "(3)(2)", "(0)(3)", "(1)(3)", "(2)(3)", "(3)(3)" };
 	FCOLLADA_EXPORT const char* LOOKAT[9] = { ".POSITIONX", ".POSITIONY", ".POSITIONZ", ".TARGETX", ".TARGETY", ".TARGETZ", ".UPX", ".UPY", ".UPZ" };
 }
diff --git a/FCollada/FCDocument/FCDParameterAnimatable.cpp b/FCollada/FCDocument/FCDParameterAnimatable.cpp
index c633cdd..741907e 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.cpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.cpp
@@ -133,11 +133,11 @@ template <> FCDAnimated* FCDParameterAnimatableSkew::CreateAnimated()
 {
 	float* values[7] =
 	{
+		&value.angle,
 		&value.rotateAxis.x, &value.rotateAxis.y, &value.rotateAxis.z,
-		&value.aroundAxis.x, &value.aroundAxis.y, &value.aroundAxis.z,
-		&value.angle
+		&value.aroundAxis.x, &value.aroundAxis.y, &value.aroundAxis.z
 	};
-	return new FCDAnimated((FCDObject*) GetParent(), 7, FCDAnimatedStandardQualifiers::LOOKAT, values);
+	return new FCDAnimated((FCDObject*) GetParent(), 7, FCDAnimatedStandardQualifiers::SKEW, values);
 }
 
 //
-- 
2.43.0


From ff0f1996f70a587674cfa87f83565a0153134044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 51/95] fix: the animation of a rigid body's mass frame
 orientation is written out

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index 3d78512..3980dea 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -298,7 +298,8 @@ void FArchiveXML::WritePhysicsRigidBodyParameters(FCDPhysicsRigidBodyParameters*
 	xmlNode* massFrameNode = AddChild(techniqueNode, DAE_MASS_FRAME_ELEMENT);
 	FArchiveXML::AddPhysicsParameter(massFrameNode, DAE_TRANSLATE_ELEMENT, physicsRigidBodyParameters->GetMassFrameTranslate());
 	FMVector4 massFrameRotate(physicsRigidBodyParameters->GetMassFrameRotateAxis(), physicsRigidBodyParameters->GetMassFrameRotateAngle());
-	AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
+	xmlNode* rotateNode = AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
+	FArchiveXML::WriteAnimatedValue(&physicsRigidBodyParameters->GetMassFrameOrientation(), rotateNode, DAE_ROTATE_ELEMENT);
 	if (physicsRigidBodyParameters->IsInertiaAccurate())
 	{
 		FArchiveXML::AddPhysicsParameter(techniqueNode, DAE_INERTIA_ELEMENT, physicsRigidBodyParameters->GetInertia());
-- 
2.43.0


From a377be8854b618106e7c1dde83e5ee65a91cdd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 52/95] fix: the animations of a rigid body instance's
 velocities are read in

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index be1fd8d..e7f2ab3 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -331,6 +331,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	{
 		physicsRigidBodyInstance->SetAngularVelocity(FUStringConversion::ToVector3(
 				ReadNodeContentDirect(param)));
+		FArchiveXML::LoadAnimatable(&physicsRigidBodyInstance->GetAngularVelocity(), param);
 	}
 	else
 	{
@@ -341,6 +342,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	if (param != NULL)
 	{
 		physicsRigidBodyInstance->SetVelocity(FUStringConversion::ToVector3(ReadNodeContentDirect(param)));
+		FArchiveXML::LoadAnimatable(&physicsRigidBodyInstance->GetVelocity(), param);
 	}
 	else
 	{
-- 
2.43.0


From 952dbb3948be6690058246a201c5d53c3a2eb74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 53/95] fix: shrinking a list of animatable values releases the
 animations of the removed values

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index ddf6745..98ca978 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -186,7 +186,7 @@ template <class TYPE, int QUALIFIERS>
 void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::resize(size_t count, const TYPE& value)
 {
 	if (count > values.size()) OnInsertion(values.size(), count - values.size());
-	else if (count < values.size()) OnRemoval(count - values.size(), values.size());
+	else if (count < values.size()) OnRemoval(count, values.size() - count);
 	values.resize(count, value);
 	OnPotentialSizeChange();
 }
-- 
2.43.0


From f382dda856524b655434c8e3b4c0398642886f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 54/95] fix: every animation of an edited list points to its
 value again, not only when the first has moved

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index 98ca978..dae4038 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -197,14 +197,9 @@ void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::OnPotentialSizeChange()
 	size_t animatedCount = animateds.size();
 	if (animatedCount == 0) return;
 
-	// Check if the first FCDAnimated points to the correct values.
-	// If it does, then they all should be fine.
-	FCDAnimated* animated = animateds.front();
-	FUAssert((size_t) animated->GetArrayElement() < values.size(), return);
-	if (animated->GetValue(0) == (void*) &values[animated->GetArrayElement()]) return;
-
 	// Process all the animateds and set their value pointers.
 	// IMPORTANT: it is assumed that these values are FLOATS and ORDERED.
+	FCDAnimated* animated = animateds.front();
 	size_t stride = animated->GetValueCount();
 	for (size_t i = 0; i < animatedCount; ++i)
 	{
-- 
2.43.0


From fa0fa9861ecc01aa9228fb76d7d861dff86c84af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 55/95] fix: copying a tracked list registers the copy with the
 objects it holds

---
 FCollada/FUtils/FUTracker.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index 4fdc8f8..81b02ae 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -334,14 +334,29 @@ public:
 	virtual bool TracksObject(const FUTrackable* object) const { return Parent::contains((ObjectClass*) object); }
 
 	/** Copy constructor. @param other The FUTrackedList to clone. */
-	FUTrackedList<ObjectClass>(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList<ObjectClass>(const FUTrackedList<ObjectClass>& other)
+	:	Parent(), FUTracker()
+	{
+		operator=(other);
+	}
 
 	/** Clones a list of tracked objects.
 		This list will stop tracking all its current tracked objects
 		and will start tracking the objects within the other list.
 		@param other A second list of tracked objects.
 		@return This list. */
-	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other)
+	{
+		if (this != &other)
+		{
+			clear();
+			for (const_iterator it = other.begin(); it != other.end(); ++it)
+			{
+				push_back(const_cast<ObjectClass*>(*it));
+			}
+		}
+		return *this;
+	}
 
 	inline bool empty() const { return Parent::empty(); } /**< Inherited from pvector. */
 	inline size_t size() const { return Parent::size(); } /**< Inherited from pvector. */
-- 
2.43.0


From 2af53acba582954f12d89e26595788a6708438dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:52 +0000
Subject: [PATCH 56/95] fix: growing an array ends the lives of the elements it
 has moved

---
 FCollada/FMath/FMArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 41c8859..9f7af13 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -337,6 +337,7 @@ namespace fm
 							for(size_t i = 0; i < sized; ++i)
 							{
 								fm::Construct(newValues + i, *(heapBuffer + i));
+								(*(heapBuffer + i)).~T();
 							}
 						}
 					}
-- 
2.43.0


From 749f74e981512d3caf3ea8fd1103550adf70ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:52 +0000
Subject: [PATCH 57/95] fix: releasing a geometry source hands its shared
 indices to another input

---
 FCollada/FCDocument/FCDGeometryPolygonsInput.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
index 2e32322..8341533 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
@@ -55,7 +55,8 @@ void FCDGeometryPolygonsInput::SetSource(FCDGeometrySource* _source)
 // Callback when the tracked source is released.
 void FCDGeometryPolygonsInput::OnObjectReleased(FUTrackable* object)
 {
-	if (source == object)
+	// The tracked pointer may have been told first and be NULL already.
+	if (source == NULL || source == object)
 	{
 		source = NULL;
 
@@ -66,7 +67,7 @@ void FCDGeometryPolygonsInput::OnObjectReleased(FUTrackable* object)
 			for (size_t i = 0; i < inputCount; ++i)
 			{
 				FCDGeometryPolygonsInput* other = parent->GetInput(i);
-				if (other->offset == offset)
+				if (other != this && other->offset == offset)
 				{
 					// Move the shared list of indices to the other input.
 					other->indices = indices;
-- 
2.43.0


From 55b07f824f27cb2cef9b03ef64a12bfb42c805a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:52 +0000
Subject: [PATCH 58/95] fix: releasing an instance's entity reference releases
 the instance

---
 FCollada/FCDocument/FCDEntityInstance.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEntityInstance.cpp b/FCollada/FCDocument/FCDEntityInstance.cpp
index bdf43a8..ca70ca6 100644
--- a/FCollada/FCDocument/FCDEntityInstance.cpp
+++ b/FCollada/FCDocument/FCDEntityInstance.cpp
@@ -158,7 +158,8 @@ FCDEntityInstance* FCDEntityInstance::Clone(FCDEntityInstance* clone) const
 
 void FCDEntityInstance::OnObjectReleased(FUTrackable* object)
 {
-	FUAssert(object == entityReference, return);
+	// The tracked pointer may have been told first and be NULL already.
+	FUAssert(entityReference == NULL || entityReference == object, return);
 	entityReference = NULL;
 	Release();
 }
-- 
2.43.0


From 9fddc92031875757a9ad60f5895f63c6120c0d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 59/95] fix: moving an object from one reference to another
 moves its ownership

---
 FCollada/FUtils/FUObject.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index 8f183bc..fc87d3f 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -198,8 +198,13 @@ public:
 		@return This reference. */
 	FUObjectRef<ObjectClass>& operator=(FUObjectRef<ObjectClass>& _ptr)
 	{
-		operator=(_ptr.ptr);
-		_ptr.ptr = NULL;
+		if (this != &_ptr)
+		{
+			ObjectClass* object = _ptr.ptr;
+			if (object != NULL) _ptr.DetachObject((FUObject*) object);
+			_ptr.ptr = NULL;
+			operator=(object);
+		}
 		return *this;
 	}
 
-- 
2.43.0


From 8e10b561c2c614a0040ad56a88f6d1881dc19cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 60/95] fix: copying a tracked pointer registers the copy with
 the object

---
 FCollada/FUtils/FUTracker.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index 81b02ae..705aab4 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -121,6 +121,13 @@ public:
 		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
 	}
 
+	/** Copy constructor. The copy tracks the object as well.
+		@param other The tracked pointer to copy. */
+	FUTrackedPtr(const FUTrackedPtr& other) : FUTracker(), ptr(other.ptr)
+	{
+		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
+	}
+
 	/** Destructor.
 		Stops the tracking of the pointer. */
 	~FUTrackedPtr()
-- 
2.43.0


From 947d0775e028ff16f82c73539cf3a17bff8a87d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 61/95] fix: a physics shape or rigid constraint keeps the
 failure of an earlier part

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 0f88407..f415c72 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -314,8 +314,9 @@ bool FArchiveXML::LoadPhysicsShape(FCDObject* object, xmlNode* physicsShapeNode)
 #define PARSE_ANALYTICAL_SHAPE(type, nodeName) \
 		else if (IsEquivalent(child->name, nodeName)) { \
 		FCDPhysicsAnalyticalGeometry* analytical = physicsShape->CreateAnalyticalGeometry(FCDPhysicsAnalyticalGeometry::type); \
-		status = FArchiveXML::LoadPhysicsAnalyticalGeometry(analytical, child); \
-			if (!status) { \
+		bool loaded = FArchiveXML::LoadPhysicsAnalyticalGeometry(analytical, child); \
+		status &= loaded; \
+			if (!loaded) { \
 				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_SHAPE_NODE, child->line); break; \
 			} }
 
@@ -728,8 +729,9 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		if (IsEquivalent((*itT)->name, nodeName)) { \
 			className* transform = new className(physicsRigidConstraint->GetDocument(), NULL); \
 			transforms.push_back(transform); \
-			status = FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), *itT); \
-			if (!status) { \
+			bool loaded = FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), *itT); \
+			status &= loaded; \
+			if (!loaded) { \
 				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_TRANSFORM, (*itT)->line);} \
 		} \
 	}  }
-- 
2.43.0


From ece507f92bb81526d3d6d8134415cb6499d134f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 62/95] fix: loading a physics material instance or the rigid
 body parameters reports its failure

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 2 +-
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index e7f2ab3..2a7c96b 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -349,7 +349,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 		physicsRigidBodyInstance->SetVelocity(FMVector3::Zero);
 	}
 
-	FArchiveXML::LoadPhysicsRigidBodyParameters(physicsRigidBodyInstance->GetParameters(), techniqueNode, body->GetParameters());
+	status &= FArchiveXML::LoadPhysicsRigidBodyParameters(physicsRigidBodyInstance->GetParameters(), techniqueNode, body->GetParameters());
 
 	physicsRigidBodyInstance->SetDirtyFlag();
 	return status;
diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index f415c72..9b9992c 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -134,7 +134,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyParameters(FCDPhysicsRigidBodyParameters*
 		{
 			FCDEntityInstance* physicsMaterialInstance = FCDEntityInstanceFactory::CreateInstance(parameters->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL);
 			parameters->SetInstanceMaterial(physicsMaterialInstance);
-			FArchiveXML::LoadSwitch(physicsMaterialInstance, &physicsMaterialInstance->GetObjectType(), param);
+			status &= FArchiveXML::LoadSwitch(physicsMaterialInstance, &physicsMaterialInstance->GetObjectType(), param);
 			FCDPhysicsMaterial* material = (FCDPhysicsMaterial*) physicsMaterialInstance->GetEntity();
 			if (material == NULL)
 			{
@@ -281,7 +281,7 @@ bool FArchiveXML::LoadPhysicsShape(FCDObject* object, xmlNode* physicsShapeNode)
 				DAE_INSTANCE_PHYSICS_MATERIAL_ELEMENT))
 		{
 			physicsShape->SetInstanceMaterial(FCDEntityInstanceFactory::CreateInstance(physicsShape->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL));
-			FArchiveXML::LoadSwitch(physicsShape->GetInstanceMaterial(),
+			status &= FArchiveXML::LoadSwitch(physicsShape->GetInstanceMaterial(),
 										&physicsShape->GetInstanceMaterial()->GetObjectType(),
 										child);
 
@@ -696,7 +696,7 @@ bool FArchiveXML::LoadPhysicsRigidBody(FCDObject* object, xmlNode* physicsRigidB
 			DAE_TECHNIQUE_COMMON_ELEMENT);
 	if (techniqueNode != NULL)
 	{
-		FArchiveXML::LoadPhysicsRigidBodyParameters(physicsRigidBody->GetParameters(), techniqueNode);
+		status &= FArchiveXML::LoadPhysicsRigidBodyParameters(physicsRigidBody->GetParameters(), techniqueNode);
 	}
 	else
 	{
-- 
2.43.0


From b87aec253339fd6a17c230676e936248c5fa2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 63/95] fix: a scene node keeps the failure of an earlier part
 when a child node loads

---
 FColladaPlugins/FArchiveXML/FAXSceneImport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
index ac25bdf..0668d45 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
@@ -134,8 +134,9 @@ bool FArchiveXML::LoadSceneNode(FCDObject* object, xmlNode* node)
 		{
 			// Load the child scene node
 			FCDSceneNode* node = sceneNode->AddChildNode();
-			status = FArchiveXML::LoadSceneNode(node, child);
-			if (!status) break;
+			bool loaded = FArchiveXML::LoadSceneNode(node, child);
+			status &= loaded;
+			if (!loaded) break;
 		}
 		// Although this case can be handled by FCDEntityInstanceFactory,
 		// we can do some special case handling here.
-- 
2.43.0


From 46dc47018f26373eb9f1915ce0904170063e9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 64/95] fix: a nested animation or an animation instance that
 fails to load is reported

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 4cd4f3a..bf7b684 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -426,7 +426,7 @@ bool FArchiveXML::LoadAnimation(FCDObject* object, xmlNode* node)
 	FindChildrenByType(node, DAE_ANIMATION_ELEMENT, animationNodes);
 	for (xmlNodeList::iterator itA = animationNodes.begin(); itA != animationNodes.end(); ++itA)
 	{
-		FArchiveXML::LoadAnimation(animation->AddChild(), *itA);
+		status &= FArchiveXML::LoadAnimation(animation->AddChild(), *itA);
 	}
 	return status;
 }
@@ -460,6 +460,7 @@ bool FArchiveXML::LoadAnimationClip(FCDObject* object, xmlNode* clipNode)
 		if (!LoadSwitch(animationInstance, &animationInstance->GetObjectType(), *itI))
 		{
 			SAFE_DELETE(animationInstance);
+			status = false;
 			continue;
 		}
 
-- 
2.43.0


From 699c4aa5471ad5f5285ab1413c3025c1cfd9810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 65/95] fix: a texture that fails to load is reported

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 22155cf..4504010 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -1590,7 +1590,7 @@ bool FArchiveXML::ParseColorTextureParameter(FCDEffectStandard* effectStandard,
 	if (bucketIndex != FUDaeTextureChannel::UNKNOWN)
 	{
 		size_t originalSize = effectStandard->GetTextureCount(bucketIndex);
-		FArchiveXML::ParseSimpleTextureParameter(effectStandard, parameterNode, bucketIndex);
+		status &= FArchiveXML::ParseSimpleTextureParameter(effectStandard, parameterNode, bucketIndex);
 		if (originalSize < effectStandard->GetTextureCount(bucketIndex))
 		{
 			value->SetValue(FMVector4::One);
@@ -1653,7 +1653,7 @@ bool FArchiveXML::ParseFloatTextureParameter(FCDEffectStandard* effectStandard,
 	if (bucketIndex != FUDaeTextureChannel::UNKNOWN)
 	{
 		size_t originalSize = effectStandard->GetTextureCount(bucketIndex);
-		FArchiveXML::ParseSimpleTextureParameter(effectStandard, parameterNode, bucketIndex);
+		status &= FArchiveXML::ParseSimpleTextureParameter(effectStandard, parameterNode, bucketIndex);
 		if (originalSize < effectStandard->GetTextureCount(bucketIndex))
 		{
 			value->SetValue(1.0f);
-- 
2.43.0


From e1ddda759c19cd020f4e77248dc0a1b875bfbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 66/95] fix: linking the controllers and the scene nodes does
 not hide an earlier failure

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 7c09480..cc73057 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -742,13 +742,13 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 	}
 	for (size_t i = 0; i < theDocument->GetControllerLibrary()->GetEntityCount(); ++i)
 	{
-		status |= FArchiveXML::LinkController(theDocument->GetControllerLibrary()->GetEntity(i));
+		status &= FArchiveXML::LinkController(theDocument->GetControllerLibrary()->GetEntity(i));
 	}
 
 	for (size_t i = 0; i < theDocument->GetVisualSceneLibrary()->GetEntityCount(); i++)
 	{
 		FCDSceneNode* node = theDocument->GetVisualSceneLibrary()->GetEntity(i);
-		status |= FArchiveXML::LinkSceneNode(node);
+		status &= FArchiveXML::LinkSceneNode(node);
 	}
 
 	// Link the convex meshes with their point clouds (convex_hull_of)
-- 
2.43.0


From 0aacbc76c2c6c8fd60852e323ac4576bce8c7320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 67/95] fix: a file that cannot be written, or an exception,
 makes the import or export fail

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index cc73057..888879e 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -406,6 +406,7 @@ bool FArchiveXML::ImportFile(const fchar* filePath, FCDocument* fcdocument)
 	_FCATCH_ALL
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_PARSING_FAILED);
+		status = false;
 	}
 
 	if (status) FUError::Error(FUError::DEBUG_LEVEL, FUError::DEBUG_LOAD_SUCCESSFUL);
@@ -464,6 +465,7 @@ bool FArchiveXML::ExportFile(FCDocument* fcdocument, const fchar* filePath)
 			// Create the XML document and write it out to the given filename
 			if (!daeDocument.Write())
 			{
+				status = false;
 				FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_WRITE_FILE, rootNode->line);
 			}
 			else
@@ -475,6 +477,7 @@ bool FArchiveXML::ExportFile(FCDocument* fcdocument, const fchar* filePath)
     _FCATCH_ALL
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_PARSING_FAILED);
+		status = false;
 	}
 
 	return status;
-- 
2.43.0


From 4f8942f5050f8ab0ae8690fe69c21541c3f69382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 68/95] fix: importing an object from data that is not XML
 fails

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 888879e..42a2583 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -540,7 +540,13 @@ bool FArchiveXML::EndExport(const fchar* UNUSED(filePath))
 bool FArchiveXML::ImportObject(FCDObject* object, const fm::vector<uint8>& data)
 {
 	FUXmlDocument loadDocument((const char*) data.begin(), data.size());
-	bool retVal = LoadSwitch(object, &object->GetObjectType(), loadDocument.GetRootNode());
+	xmlNode* rootNode = loadDocument.GetRootNode();
+	if (rootNode == NULL)
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
+		return false;
+	}
+	bool retVal = LoadSwitch(object, &object->GetObjectType(), rootNode);
 	if (FArchiveXML::loadedDocumentCount == 0)
 		FArchiveXML::ClearIntermediateData();
 	return retVal;
-- 
2.43.0


From 3aafcf6fc93009b0e4c1fa92629d019c328b4c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 69/95] fix: the deprecated LoadDocument returns no document
 when the load fails

---
 FCollada/FCollada.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCollada.cpp b/FCollada/FCollada.cpp
index 895d5b9..94511ca 100644
--- a/FCollada/FCollada.cpp
+++ b/FCollada/FCollada.cpp
@@ -123,7 +123,7 @@ namespace FCollada
 	{
 		// This function is deprecated.
 		FCDocument* document = FCollada::NewTopDocument();
-		if (!LoadDocumentFromFile(document, filename)) document->Release();
+		if (!LoadDocumentFromFile(document, filename)) SAFE_RELEASE(document);
 		return document;
 	}
 
-- 
2.43.0


From e6c852cceed58b99ef39fef04a398d36534e1e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 70/95] fix: interleaved values are read into lists of any
 length, and may skip the first list

---
 FCollada/FUtils/FUStringConversion.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 576bec5..56fedfe 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -390,14 +390,19 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 	size_t validCount = 0;
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
+		size_t length = 0;
+		for (size_t i = 0; i < stride; ++i)
+		{
+			if (arrays[i] != NULL && arrays[i]->size() > length) length = arrays[i]->size();
+		}
 		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
 		{
 			for (size_t i = 0; i < stride && *value != 0; ++i)
 			{
 				FloatList* array = arrays[i];
-				if (array != NULL) array->at(count) = ToFloat(&value);
-				else ToFloat(&value);
+				if (array == NULL) ToFloat(&value);
+				else if (count < array->size()) array->at(count) = ToFloat(&value);
+				else array->push_back(ToFloat(&value));
 			}
 		}
 
@@ -439,14 +444,19 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 	size_t validCount = 0;
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
+		size_t length = 0;
+		for (size_t i = 0; i < stride; ++i)
+		{
+			if (arrays[i] != NULL && arrays[i]->size() > length) length = arrays[i]->size();
+		}
 		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
 		{
 			for (size_t i = 0; i < stride && *value != 0; ++i)
 			{
 				UInt32List* array = arrays[i];
-				if (array != NULL) array->at(count) = ToUInt32(&value);
-				else ToUInt32(&value);
+				if (array == NULL) ToUInt32(&value);
+				else if (count < array->size()) array->at(count) = ToUInt32(&value);
+				else array->push_back(ToUInt32(&value));
 			}
 		}
 
-- 
2.43.0


From b044821f3f3d62678ae65e5f0f6b770bf12c200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 71/95] fix: the values beyond the count of a 3D source go to
 the curves that exist

---
 FColladaPlugins/FArchiveXML/FAXColladaParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
index ac45698..539cfec 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
@@ -385,7 +385,7 @@ namespace FUDaeParser
 
 				while (*value != 0)
 				{
-					for (size_t i = 0; 2 * i < stride && *value != 0; ++i)
+					for (size_t i = 0; 3 * i < stride && *value != 0; ++i)
 					{
 						if (arrays[i] != NULL)
 						{
-- 
2.43.0


From d5ff6693631559df430bf75761b839107aa7c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 72/95] fix: a source may hold fewer interpolation names than
 it declares

---
 FColladaPlugins/FArchiveXML/FAXColladaParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
index 539cfec..5844d33 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
@@ -428,7 +428,8 @@ namespace FUDaeParser
 			FUStringConversion::ToStringList(arrayContent, stringArray);
 			for (uint32 i = 0; i < count; ++i)
 			{
-				array[i] = (uint32) FUDaeInterpolation::FromString(stringArray[i * stride]);
+				size_t index = i * stride;
+				array[i] = (uint32) FUDaeInterpolation::FromString((index < stringArray.size()) ? stringArray[index] : emptyString);
 			}
 		}
 	}
-- 
2.43.0


From a12a4251052d1b2dacd0f72e69b990f757dc8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 73/95] fix: a skin whose lists are shorter than it declares is
 read within them

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 5186faf..220a890 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -189,6 +189,13 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	if (combinerVertexCounts.size() != combinerValueCount)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_VCOUNT, skinNode->line);
+		combinerVertexCounts.resize(combinerValueCount, 0);
+	}
+	if (jointIdx < 0 || jointIdx > 1 || weightIdx < 0 || weightIdx > 1)
+	{
+		// Only pairs of one joint index and one weight index are supported.
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_INPUT, skinNode->line);
+		return status = false;
 	}
 
 	// Setup the joint-weight-vertex matches
@@ -199,7 +206,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 		FCDSkinControllerVertex* vert = skinController->GetVertexInfluence(j);
 		uint32 localValueCount = combinerVertexCounts[j];
 		vert->SetPairCount(localValueCount);
-		for (size_t i = 0; i < localValueCount && offset < combinerVertexIndexCount - 1; ++i)
+		for (size_t i = 0; i < localValueCount && offset + 1 < combinerVertexIndexCount; ++i)
 		{
 			FCDJointWeightPair* pair = vert->GetPair(i);
 			pair->jointIndex = combinerVertexIndices[offset + jointIdx];
@@ -214,7 +221,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_WEIGHT_INDEX);
 				weightIndex = 0;
 			}
-			pair->weight = weights[weightIndex];
+			pair->weight = (weightIndex < weightCount) ? weights[weightIndex] : 0.0f;
 			offset += 2;
 		}
 	}
@@ -237,7 +244,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	for (size_t i = 0; i < jointCount; ++i)
 	{
 		skinController->GetJoint(i)->SetId(jointSubIds[i]);
-		skinController->GetJoint(i)->SetBindPoseInverse(invertedBindPoses[i]);
+		if (i < invertedBindPoses.size()) skinController->GetJoint(i)->SetBindPoseInverse(invertedBindPoses[i]);
 	}
 
 	skinController->SetDirtyFlag();
-- 
2.43.0


From 3f2e9b8a049a58efcb43b05106d8da0e165d2ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 74/95] fix: a morph target without a weight in the document
 gets none

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 220a890..ebbf444 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -330,7 +330,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_TARGET_GEOMETRY_MISSING, morphNode->line);
 		}
-		FCDMorphTarget* morphTarget = morphController->AddTarget(targetGeometry, weights[i]);
+		FCDMorphTarget* morphTarget = morphController->AddTarget(targetGeometry, (i < (int32) weights.size()) ? weights[i] : 0.0f);
 		if (morphTarget == NULL) continue;
 
 		// Record the morphing weight as animatable
-- 
2.43.0


From c6b57e07b5a4c46f69187197cfe9905c84ad37be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 75/95] fix: collapsing a multi-dimensional curve reads the
 tangents of its keys, not their list

---
 FCollada/FCDocument/FCDAnimationCurveTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurveTools.cpp b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
index 3a5a08d..b70d9af 100644
--- a/FCollada/FCDocument/FCDAnimationCurveTools.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
@@ -233,8 +233,8 @@ namespace FCDAnimationCurveTools
 
 			if (outKeys[i]->interpolation == FUDaeInterpolation::BEZIER)
 			{
-				FCDAnimationMKeyBezier* inBKey = (FCDAnimationMKeyBezier*) inKeys + i;
-				FCDAnimationKeyBezier* outBKey = (FCDAnimationKeyBezier*) outKeys + i;
+				const FCDAnimationMKeyBezier* inBKey = (const FCDAnimationMKeyBezier*) inKeys[i];
+				FCDAnimationKeyBezier* outBKey = (FCDAnimationKeyBezier*) outKeys[i];
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->inTangent[j].v;
 				outBKey->inTangent = FMVector2(inBKey->inTangent[0].u, (*collapse)(buffer, (uint32) dimension));
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->outTangent[j].v;
-- 
2.43.0


From 93493d23f6a20984b531e753383bd91e27623459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:21 +0000
Subject: [PATCH 76/95] fix: generating texture tangents releases its table of
 tangential vertices

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 1e62a0c..2238a29 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -425,6 +425,7 @@ namespace FCDGeometryPolygonsTools
 
 		if (tangentSource != NULL) tangentSource->SetData(tangentData, 3);
 		if (binormalSource != NULL) binormalSource->SetData(binormalData, 3);
+		SAFE_DELETE_ARRAY(globalVertices);
 	}
 
 	struct HashIndexMapItem { UInt32List allValues; UInt32List newIndex; };
-- 
2.43.0


From b79d8151d15e0052cfd9388d77f6182b0b93558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:21 +0000
Subject: [PATCH 77/95] fix: loading an animated penumbra releases the merged
 curves

---
 FCollada/FCDocument/FCDLightTools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDLightTools.cpp b/FCollada/FCDocument/FCDLightTools.cpp
index 932b4eb..c882206 100644
--- a/FCollada/FCDocument/FCDLightTools.cpp
+++ b/FCollada/FCDocument/FCDLightTools.cpp
@@ -288,6 +288,7 @@ namespace FCDLightTools
 			if (hasFlip)
 			{
 				// recompute the multiCurve with the intermediate values
+				SAFE_RELEASE(multiCurve);
 				multiCurve = FCDAnimationCurveTools::MergeCurves(multiCurveCurves, multiCurveValues);
 				dimension = multiCurve->GetDimension();
 				FUAssert(dimension == 2, return);
@@ -345,6 +346,8 @@ namespace FCDLightTools
 			}
 		}
 
+		SAFE_RELEASE(multiCurve);
+
 		// flip the keys (and their tangents) if necessary
 		FCDAnimationKey** finalFallOffAngleKeys = fallOffAngleCurve->GetKeys();
 		FCDAnimationKey** finalOuterAngleKeys = outerAngleCurve->GetKeys();
-- 
2.43.0


From 683a80049c256e601e7d0ba7209e1c92b0ec346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:21 +0000
Subject: [PATCH 78/95] fix: writing an animation channel releases its list of
 qualifiers

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index efb8994..49e1e61 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -111,6 +111,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 		FArchiveXML::WriteSamplerFCDAnimationMultiCurve(multiCurve, parentNode, baseId);
 		FArchiveXML::WriteChannelFCDAnimationMultiCurve(multiCurve, parentNode, baseId, data.targetPointer);
 		SAFE_RELEASE(multiCurve);
+		SAFE_DELETE_ARRAY(qualifiers);
 	}
 	else
 	{
-- 
2.43.0


From f6a5ccd1c9f9f543a3de972c12214e429de49913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:21 +0000
Subject: [PATCH 79/95] fix: cloning a surface parameter releases the
 initialization the clone had

---
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index 2868a8b..35bc9fa 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -156,6 +156,7 @@ FCDEffectParameter* FCDEffectParameterSurface::Clone(FCDEffectParameter* _clone)
 
 		if (initMethod != NULL)
 		{
+			SAFE_DELETE(clone->initMethod);
 			clone->initMethod = FCDEffectParameterSurfaceInitFactory::Create(initMethod->GetInitType());
 			initMethod->Clone(clone->initMethod);
 		}
-- 
2.43.0


From 680cc1bec1d3caa9515dea716a8e705c4b9bebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:21 +0000
Subject: [PATCH 80/95] fix: setting the material instance of a physics shape
 releases the one it had

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 9 ++++++++-
 FCollada/FCDocument/FCDPhysicsShape.h   | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 152855f..291fada 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -79,6 +79,13 @@ void FCDPhysicsShape::SetPhysicsMaterial(FCDPhysicsMaterial* _physicsMaterial)
 	SetNewChildFlag();
 }
 
+void FCDPhysicsShape::SetInstanceMaterial(FCDEntityInstance* instance)
+{
+	if (instance == instanceMaterialRef) return;
+	SAFE_RELEASE(instanceMaterialRef);
+	instanceMaterialRef = instance;
+}
+
 FCDGeometryInstance* FCDPhysicsShape::CreateGeometryInstance(FCDGeometry* geom, bool createConvexMesh)
 {
 	analGeom = NULL;
@@ -128,7 +135,7 @@ FCDPhysicsShape* FCDPhysicsShape::Clone(FCDPhysicsShape* clone) const
 	// Clone the material instance
 	if (instanceMaterialRef != NULL)
 	{
-		clone->instanceMaterialRef = FCDEntityInstanceFactory::CreateInstance(clone->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL);
+		clone->SetInstanceMaterial(FCDEntityInstanceFactory::CreateInstance(clone->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL));
 		instanceMaterialRef->Clone(clone->instanceMaterialRef);
 	}
 	if (physicsMaterial != NULL)
diff --git a/FCollada/FCDocument/FCDPhysicsShape.h b/FCollada/FCDocument/FCDPhysicsShape.h
index 2a1e980..d3b6ea2 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.h
+++ b/FCollada/FCDocument/FCDPhysicsShape.h
@@ -199,7 +199,7 @@ public:
 	/** [INTERNAL] Set the material instance.
 		@instance The new material instance.
 	*/
-	void SetInstanceMaterial(FCDEntityInstance* instance){ instanceMaterialRef = instance; }
+	void SetInstanceMaterial(FCDEntityInstance* instance);
 
 	/** [INTERNAL] Retrieve the material instance.
 		@return The material instance.
-- 
2.43.0


From de1c22ea7fe9b5d841389df509394ffeb3179c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:21 +0000
Subject: [PATCH 81/95] fix: cloning an animation curve releases the keys the
 clone had

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index a4627da..b897d18 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -227,7 +227,7 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 	clone->SetTargetQualifier(targetQualifier);
 
 	// Pre-buffer the list of keys and clone them.
-	clone->keys.clear();
+	CLEAR_POINTER_VECTOR(clone->keys);
 	clone->keys.reserve(keys.size());
 	for (FCDAnimationKeyList::const_iterator it = keys.begin(); it != keys.end(); ++it)
 	{
-- 
2.43.0


From b5826f94764bcb88afdeaf7fe427bcba014582c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 82/95] fix: setting the geometry instance of a physics shape
 releases the one it had

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 9 ++++++++-
 FCollada/FCDocument/FCDPhysicsShape.h   | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 291fada..610fa0c 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -86,6 +86,13 @@ void FCDPhysicsShape::SetInstanceMaterial(FCDEntityInstance* instance)
 	instanceMaterialRef = instance;
 }
 
+void FCDPhysicsShape::SetGeometryInstance(FCDGeometryInstance* instance)
+{
+	if (instance == geometry) return;
+	SAFE_RELEASE(geometry);
+	geometry = instance;
+}
+
 FCDGeometryInstance* FCDPhysicsShape::CreateGeometryInstance(FCDGeometry* geom, bool createConvexMesh)
 {
 	analGeom = NULL;
@@ -152,7 +159,7 @@ FCDPhysicsShape* FCDPhysicsShape::Clone(FCDPhysicsShape* clone) const
 	}
 	if (geometry != NULL)
 	{
-		clone->geometry = (FCDGeometryInstance*)FCDEntityInstanceFactory::CreateInstance(clone->GetDocument(), NULL, geometry->GetEntityType());
+		clone->SetGeometryInstance((FCDGeometryInstance*)FCDEntityInstanceFactory::CreateInstance(clone->GetDocument(), NULL, geometry->GetEntityType()));
 		geometry->Clone(clone->geometry);
 	}
 
diff --git a/FCollada/FCDocument/FCDPhysicsShape.h b/FCollada/FCDocument/FCDPhysicsShape.h
index d3b6ea2..fc69036 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.h
+++ b/FCollada/FCDocument/FCDPhysicsShape.h
@@ -139,7 +139,7 @@ public:
 	/** [INTERNAL] Set the geometry instance.
 		@param instance The new geometry instance.
 	*/
-	void SetGeometryInstance(FCDGeometryInstance* instance){ geometry = instance; }
+	void SetGeometryInstance(FCDGeometryInstance* instance);
 
 	/** Creates a geometry instance for this shape. If IsAnalyticalGeometry
 		returned true before this call, it will return false afterwards as the
-- 
2.43.0


From 45eb9d2ec306174d7571758f3f3bdfbc97f6edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 83/95] fix: setting the material instance of rigid body
 parameters releases the one they had

---
 FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp | 9 ++++++++-
 FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h   | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
index bbaa2e7..335e5cc 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
@@ -106,7 +106,7 @@ void FCDPhysicsRigidBodyParameters::CopyFrom(const FCDPhysicsRigidBodyParameters
 	// Clone the material instance
 	if (original.instanceMaterialRef != NULL)
 	{
-		instanceMaterialRef = original.instanceMaterialRef->Clone();
+		SetInstanceMaterial(original.instanceMaterialRef->Clone());
 	}
 }
 
@@ -130,6 +130,13 @@ void FCDPhysicsRigidBodyParameters::SetPhysicsMaterial(FCDPhysicsMaterial* _phys
 	parent->SetNewChildFlag();
 }
 
+void FCDPhysicsRigidBodyParameters::SetInstanceMaterial(FCDEntityInstance* instance)
+{
+	if (instance == instanceMaterialRef) return;
+	SAFE_RELEASE(instanceMaterialRef);
+	instanceMaterialRef = instance;
+}
+
 void FCDPhysicsRigidBodyParameters::SetDynamic(bool _dynamic)
 {
 	dynamic = _dynamic;
diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h
index ad53f62..0791788 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h
@@ -229,7 +229,7 @@ public:
 
 	/** [INTERNAL] Set the material instance.
 		@instance The new material instance. */
-	void SetInstanceMaterial(FCDEntityInstance* instance) { instanceMaterialRef = instance; }
+	void SetInstanceMaterial(FCDEntityInstance* instance);
 
 	/** [INTERNAL] Retrieve the material instance.
 		@return The material instance. */
-- 
2.43.0


From 212a324affb8545371d9fd8f3f69ecb269e1b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 84/95] fix: FitIndexBuffers gives a face larger than the limit
 a polygons set of its own instead of adding empty sets for ever

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 2238a29..4f5c8ba 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -1130,7 +1130,7 @@ namespace FCDGeometryPolygonsTools
 				for (; faceCopyEnd < faceCount; ++faceCopyEnd)
 				{
 					uint32 localCount = faceVertexCounts[faceCopyEnd];
-					if (faceVertexCount + localCount > maximumIndexCount) break;
+					if (faceVertexCount > 0 && faceVertexCount + localCount > maximumIndexCount) break;
 					faceVertexCount += localCount;
 				}
 				faceVertexCopyEnd += faceVertexCount;
-- 
2.43.0


From 1dd6ad5a9fa4ddfd40765ceb45a8fa5521e77a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 85/95] fix: removing values of a list animatable steps over an
 out-of-order animated instead of looping on it

---
 FCollada/FCDocument/FCDParameterAnimatable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.cpp b/FCollada/FCDocument/FCDParameterAnimatable.cpp
index 741907e..c6c429a 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.cpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.cpp
@@ -205,7 +205,7 @@ void FCDParameterListAnimatable::OnRemoval(size_t offset, size_t count)
 	for (size_t i = BinarySearch(offset); i < animateds.size();)
 	{
 		int32 arrayElement = animateds[i]->GetArrayElement();
-		FUAssert(arrayElement >= (int32) offset, continue);
+		FUAssert(arrayElement >= (int32) offset, ++i; continue);
 		if (arrayElement >= (int32) (offset + count)) break;
 		animateds[i]->Release(); // automatic removal from this array..
 	}
-- 
2.43.0


From e9edf3215ef777027abff6b83ca73501a89c4565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 86/95] fix: LoadPenumbra stops looking for the sign flip of a
 penumbra that has no zero once the interval cannot be halved

---
 FCollada/FCDocument/FCDLightTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDLightTools.cpp b/FCollada/FCDocument/FCDLightTools.cpp
index c882206..9e94d30 100644
--- a/FCollada/FCDocument/FCDLightTools.cpp
+++ b/FCollada/FCDocument/FCDLightTools.cpp
@@ -238,7 +238,7 @@ namespace FCDLightTools
 					float currentTime = (higherTime + lowerTime) / 2.0f;
 
 					multiCurve->Evaluate(currentTime, output);
-					while (!IsEquivalent(output[1], 0.0f)) // while penumbra output != 0
+					while (!IsEquivalent(output[1], 0.0f) && lowerTime < currentTime && currentTime < higherTime) // while penumbra output != 0
 					{
 						if ((isNegative && (output[1] < 0)) || (!isNegative && (output[1] > 0)))
 						{
-- 
2.43.0


From 39abff8f296f70a35eb62d720bd6f2854b6d5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 87/95] fix: FCDMaterialInstance::GetMaterial only takes the
 instantiated entity for a material when it is one

---
 FCollada/FCDocument/FCDMaterialInstance.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDMaterialInstance.h b/FCollada/FCDocument/FCDMaterialInstance.h
index 2307ea7..d2b7ed4 100644
--- a/FCollada/FCDocument/FCDMaterialInstance.h
+++ b/FCollada/FCDocument/FCDMaterialInstance.h
@@ -143,8 +143,8 @@ public:
 
 	/** Retrieves the material entity used by this instance.
 		@return The instanced material. */
-	inline FCDMaterial* GetMaterial() { return (FCDMaterial*) GetEntity(); }
-	inline const FCDMaterial* GetMaterial() const { return (const FCDMaterial*) GetEntity(); } /**< See above. */
+	inline FCDMaterial* GetMaterial() { return (GetEntity() != NULL && GetEntity()->GetType() == FCDEntity::MATERIAL) ? (FCDMaterial*) GetEntity() : NULL; }
+	inline const FCDMaterial* GetMaterial() const { return (GetEntity() != NULL && GetEntity()->GetType() == FCDEntity::MATERIAL) ? (const FCDMaterial*) GetEntity() : NULL; } /**< See above. */
 
 	/** Sets the material entity used by this instance.
 		@param _material The new instanced material. */
-- 
2.43.0


From a6cc49a42ff2b99424476b8bae29788cd5c55d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 88/95] fix: FCDPhysicsRigidBodyInstance::GetRigidBody and
 FCDPhysicsRigidConstraintInstance::GetRigidConstraint check what the entity
 is

---
 FCollada/FCDocument/FCDPhysicsRigidBodyInstance.h       | 2 +-
 FCollada/FCDocument/FCDPhysicsRigidConstraintInstance.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyInstance.h b/FCollada/FCDocument/FCDPhysicsRigidBodyInstance.h
index 83b049a..cde3134 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyInstance.h
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyInstance.h
@@ -80,7 +80,7 @@ public:
 
 	/** Retrieves the rigid body for this instance.
 		@return The rigid body. */
-	inline FCDPhysicsRigidBody* GetRigidBody() { return (FCDPhysicsRigidBody*) GetEntity(); }
+	inline FCDPhysicsRigidBody* GetRigidBody() { return (GetEntity() != NULL && GetEntity()->GetType() == FCDEntity::PHYSICS_RIGID_BODY) ? (FCDPhysicsRigidBody*) GetEntity() : NULL; }
 
 	/** Retrieves the angular velocity of this rigid body instance.
 		@return The angular velocity. */
diff --git a/FCollada/FCDocument/FCDPhysicsRigidConstraintInstance.h b/FCollada/FCDocument/FCDPhysicsRigidConstraintInstance.h
index cf61b18..2b8ccbe 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidConstraintInstance.h
+++ b/FCollada/FCDocument/FCDPhysicsRigidConstraintInstance.h
@@ -67,7 +67,7 @@ public:
 
 	/** Retrieves the rigid constraint for this rigid constraint instance.
 		@return The rigid constraint. */
-	inline FCDPhysicsRigidConstraint* GetRigidConstraint() { return (FCDPhysicsRigidConstraint*) GetEntity(); }
+	inline FCDPhysicsRigidConstraint* GetRigidConstraint() { return (GetEntity() != NULL && GetEntity()->GetType() == FCDEntity::PHYSICS_RIGID_CONSTRAINT) ? (FCDPhysicsRigidConstraint*) GetEntity() : NULL; }
 
 	/** Clones the rigid constraint instance.
 		@param clone The rigid constraint instance to become the clone.
-- 
2.43.0


From e77a1240e862e5d674f84cc0b2d551542ca87cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 89/95] fix: FCDAnimationClip::GetAnimation only takes the
 instantiated entity for an animation when it is one

---
 FCollada/FCDocument/FCDAnimationClip.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.h b/FCollada/FCDocument/FCDAnimationClip.h
index 8910592..948afab 100644
--- a/FCollada/FCDocument/FCDAnimationClip.h
+++ b/FCollada/FCDocument/FCDAnimationClip.h
@@ -107,7 +107,7 @@ public:
     /** Retrieves a given animation instanced by this clip.
         @param index The index of the animation to retrieve.
         @return The animation object at the given index. */
-	inline FCDAnimation* GetAnimation(size_t index) const { FUAssert(GetAnimationCount() > index, return NULL); return (FCDAnimation*) animations[index]->GetEntity(); }
+	inline FCDAnimation* GetAnimation(size_t index) const { FUAssert(GetAnimationCount() > index, return NULL); const FCDEntity* entity = animations[index]->GetEntity(); return (entity != NULL && entity->GetType() == FCDEntity::ANIMATION) ? (FCDAnimation*) entity : NULL; }
 
     /** Sets the name of the animation at a given index.
         @param name The name to give the animation at the given index.
-- 
2.43.0


From 340b129db2ea0695bc5bd61ee399ec950ec37ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 90/95] fix: the search for cycles of physics models only looks
 into instantiated models

---
 FCollada/FCDocument/FCDPhysicsModel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDPhysicsModel.cpp b/FCollada/FCDocument/FCDPhysicsModel.cpp
index f7f8699..9e20877 100644
--- a/FCollada/FCDocument/FCDPhysicsModel.cpp
+++ b/FCollada/FCDocument/FCDPhysicsModel.cpp
@@ -143,7 +143,11 @@ bool FCDPhysicsModel::AttachModelInstances()
 					for (FCDPhysicsModelInstanceContainer::iterator modelInstancesIt = modelInstances.begin();
 							modelInstancesIt != modelInstances.end(); modelInstancesIt++)
 					{
-						modelQueue.push_back((FCDPhysicsModel*)(*modelInstancesIt)->GetEntity());
+						FCDEntity* instanced = (*modelInstancesIt)->GetEntity();
+						if (instanced != NULL && instanced->GetType() == FCDEntity::PHYSICS_MODEL)
+						{
+							modelQueue.push_back((FCDPhysicsModel*) instanced);
+						}
 					}
 				}
 			}
-- 
2.43.0


From bdfd1033760283cce18659df8f43d1f50bd9468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 91/95] fix: the volume of a physics shape whose geometry
 instance does not instantiate a geometry is that of one without volume

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 610fa0c..0014b05 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -209,8 +209,9 @@ float FCDPhysicsShape::CalculateVolume() const
 {
 	if (IsGeometryInstance())
 	{
-		FCDGeometry* geom = ((FCDGeometry*)geometry->GetEntity());
-		if (geom->IsMesh())
+		const FCDEntity* entity = geometry->GetEntity();
+		const FCDGeometry* geom = (entity != NULL && entity->GetType() == FCDEntity::GEOMETRY) ? (const FCDGeometry*) entity : NULL;
+		if (geom != NULL && geom->IsMesh())
 		{
 			FUBoundingBox boundary;
 			float countingVolume = 0.0f;
-- 
2.43.0


From 5304c9497ae96b7eb441fb815e8f4c3b9babe8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 92/95] fix: FCDEffect::FindProfileByTypeAndPlatform only asks
 FX profiles for their platform

---
 FCollada/FCDocument/FCDEffect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEffect.cpp b/FCollada/FCDocument/FCDEffect.cpp
index 9fe3c65..d1ee678 100644
--- a/FCollada/FCDocument/FCDEffect.cpp
+++ b/FCollada/FCDocument/FCDEffect.cpp
@@ -64,7 +64,7 @@ const FCDEffectProfile* FCDEffect::FindProfileByTypeAndPlatform(FUDaeProfileType
 {
 	for (const FCDEffectProfile** itR = profiles.begin(); itR != profiles.end(); ++itR)
 	{
-		if ((*itR)->GetType() == type)
+		if ((*itR)->GetType() == type && (*itR)->HasType(FCDEffectProfileFX::GetClassType()))
 		{
 			if (((FCDEffectProfileFX*)(*itR))->GetPlatform() == TO_FSTRING(platform)) return (*itR);
 		}
-- 
2.43.0


From 81df285aa65ce7b9e24b936b31f725d004a841f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 93/95] fix: LoadPenumbra only writes tangents into an added
 key that has them

---
 FCollada/FCDocument/FCDLightTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDLightTools.cpp b/FCollada/FCDocument/FCDLightTools.cpp
index 9e94d30..b97d383 100644
--- a/FCollada/FCDocument/FCDLightTools.cpp
+++ b/FCollada/FCDocument/FCDLightTools.cpp
@@ -259,7 +259,7 @@ namespace FCDLightTools
 					additionalKeys++;
 					newKey->input = currentTime;
 					newKey->output = 0.0f;
-					if (key->interpolation == FUDaeInterpolation::BEZIER)
+					if (newKey->interpolation == FUDaeInterpolation::BEZIER)
 					{
 						FCDAnimationKeyBezier* newBkey = (FCDAnimationKeyBezier*)newKey;
 
-- 
2.43.0


From 6f19dd412ac3541c797cfd6b0fd8fde353239404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 94/95] fix: loading a rigid constraint instance gives up when
 its model instance does not instantiate a physics model

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 2a7c96b..c82ba4e 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -370,6 +370,12 @@ bool FArchiveXML::LoadPhysicsRigidConstraintInstance(FCDObject* object, xmlNode*
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_UNKNOWN_ELEMENT, instanceNode->line);
 		status = false;
 	}
+	if (physicsRigidConstraintInstance->GetModelParentInstance() == NULL
+		|| physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity() == NULL
+		|| physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity()->GetType() != FCDEntity::PHYSICS_MODEL)
+	{
+		return false;
+	}
 
 	FCDPhysicsModel* model = (FCDPhysicsModel*) physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity();
 	fm::string physicsRigidConstraintSid = ReadNodeProperty(instanceNode, DAE_CONSTRAINT_ATTRIBUTE);
-- 
2.43.0


From 45f7fa1fc6583f4c18067d7a92f0ee24e0d98e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 95/95] fix: the physics material of rigid body parameters is
 only taken for one when it is one

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 9b9992c..4ec2c71 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -135,7 +135,8 @@ bool FArchiveXML::LoadPhysicsRigidBodyParameters(FCDPhysicsRigidBodyParameters*
 			FCDEntityInstance* physicsMaterialInstance = FCDEntityInstanceFactory::CreateInstance(parameters->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL);
 			parameters->SetInstanceMaterial(physicsMaterialInstance);
 			status &= FArchiveXML::LoadSwitch(physicsMaterialInstance, &physicsMaterialInstance->GetObjectType(), param);
-			FCDPhysicsMaterial* material = (FCDPhysicsMaterial*) physicsMaterialInstance->GetEntity();
+			FCDEntity* entity = physicsMaterialInstance->GetEntity();
+			FCDPhysicsMaterial* material = (entity != NULL && entity->GetType() == FCDEntity::PHYSICS_MATERIAL) ? (FCDPhysicsMaterial*) entity : NULL;
 			if (material == NULL)
 			{
 				FUError::Error(FUError::ERROR_LEVEL, FUError::WARNING_MISSING_URI_TARGET, param->line);
-- 
2.43.0

