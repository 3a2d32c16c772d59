// every operation of every API handle that needs the object behind it (generated once from the signatures)
static void calls_DLL_IGES(DLL_IGES& h,const std::string& how){
  { at(how+" DLL_IGES::AddEntity(DLL_IGES_ENTITY*)"); ev(); DLL_IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES::AddEntity(a0); }); bad(r,"DLL_IGES::AddEntity",how); }
  { at(how+" DLL_IGES::AddEntity(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES::AddEntity(a0); }); bad(r,"DLL_IGES::AddEntity",how); }
  { at(how+" DLL_IGES::AddToHeader(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::AddToHeader(a0); }); bad(r,"DLL_IGES::AddToHeader",how); }
  { at(how+" DLL_IGES::ChangeModelScale(double)"); ev(); double a0=1; auto r=run([&]{ return h.DLL_IGES::ChangeModelScale(a0); }); bad(r,"DLL_IGES::ChangeModelScale",how); }
  { at(how+" DLL_IGES::Clear()"); ev();  auto r=run([&]{ return h.DLL_IGES::Clear(); }); bad(r,"DLL_IGES::Clear",how); }
  { at(how+" DLL_IGES::Compact()"); ev();  auto r=run([&]{ return h.DLL_IGES::Compact(); }); bad(r,"DLL_IGES::Compact",how); }
  { at(how+" DLL_IGES::ConvertUnits(IGES_UNIT)"); ev(); IGES_UNIT a0=(IGES_UNIT)0; auto r=run([&]{ return h.DLL_IGES::ConvertUnits(a0); }); bad(r,"DLL_IGES::ConvertUnits",how); }
  { at(how+" DLL_IGES::Cull(bool)"); ev(); bool a0=1; auto r=run([&]{ return h.DLL_IGES::Cull(a0); }); bad(r,"DLL_IGES::Cull",how); }
  { at(how+" DLL_IGES::DelEntity(DLL_IGES_ENTITY*)"); ev(); DLL_IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES::DelEntity(a0); }); bad(r,"DLL_IGES::DelEntity",how); }
  { at(how+" DLL_IGES::DelEntity(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES::DelEntity(a0); }); bad(r,"DLL_IGES::DelEntity",how); }
  { at(how+" DLL_IGES::Export(DLL_IGES*, IGES_ENTITY_308**)"); ev(); DLL_IGES* a0=0; IGES_ENTITY_308** a1=0; auto r=run([&]{ return h.DLL_IGES::Export(a0,a1); }); bad(r,"DLL_IGES::Export",how); }
  { at(how+" DLL_IGES::Export(IGES*, IGES_ENTITY_308**)"); ev(); IGES* a0=0; IGES_ENTITY_308** a1=0; auto r=run([&]{ return h.DLL_IGES::Export(a0,a1); }); bad(r,"DLL_IGES::Export",how); }
  { at(how+" DLL_IGES::GetApplicationNote(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetApplicationNote(a0); }); bad(r,"DLL_IGES::GetApplicationNote",how); }
  { at(how+" DLL_IGES::GetAuthor(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetAuthor(a0); }); bad(r,"DLL_IGES::GetAuthor",how); }
  { at(how+" DLL_IGES::GetCreationDate(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetCreationDate(a0); }); bad(r,"DLL_IGES::GetCreationDate",how); }
  { at(how+" DLL_IGES::GetDraftingStandard(IGES_DRAFTING_STANDARD&)"); ev(); IGES_DRAFTING_STANDARD a0=(IGES_DRAFTING_STANDARD)0; auto r=run([&]{ return h.DLL_IGES::GetDraftingStandard(a0); }); bad(r,"DLL_IGES::GetDraftingStandard",how); }
  { at(how+" DLL_IGES::GetHeaders(unsigned long&, char const**&)"); ev(); unsigned long a0{}; const char** a1=0; auto r=run([&]{ return h.DLL_IGES::GetHeaders(a0,a1); }); bad(r,"DLL_IGES::GetHeaders",how); }
  { at(how+" DLL_IGES::GetIGESVersionFlag(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES::GetIGESVersionFlag(a0); }); bad(r,"DLL_IGES::GetIGESVersionFlag",how); }
  { at(how+" DLL_IGES::GetMaxLineWidth(double&)"); ev(); double a0{}; auto r=run([&]{ return h.DLL_IGES::GetMaxLineWidth(a0); }); bad(r,"DLL_IGES::GetMaxLineWidth",how); }
  { at(how+" DLL_IGES::GetMaxLineWidthGrad(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES::GetMaxLineWidthGrad(a0); }); bad(r,"DLL_IGES::GetMaxLineWidthGrad",how); }
  { at(how+" DLL_IGES::GetMinResolution(double&)"); ev(); double a0{}; auto r=run([&]{ return h.DLL_IGES::GetMinResolution(a0); }); bad(r,"DLL_IGES::GetMinResolution",how); }
  { at(how+" DLL_IGES::GetModificationDate(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetModificationDate(a0); }); bad(r,"DLL_IGES::GetModificationDate",how); }
  { at(how+" DLL_IGES::GetNHeaderLines()"); ev();  auto r=run([&]{ return h.DLL_IGES::GetNHeaderLines(); }); bad(r,"DLL_IGES::GetNHeaderLines",how); }
  { at(how+" DLL_IGES::GetNativeSystemID(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetNativeSystemID(a0); }); bad(r,"DLL_IGES::GetNativeSystemID",how); }
  { at(how+" DLL_IGES::GetNewAssemblyName(char*)"); ev(); char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetNewAssemblyName(a0); }); bad(r,"DLL_IGES::GetNewAssemblyName",how); }
  { at(how+" DLL_IGES::GetNewPartName()"); ev();  auto r=run([&]{ return h.DLL_IGES::GetNewPartName(); }); bad(r,"DLL_IGES::GetNewPartName",how); }
  { at(how+" DLL_IGES::GetOrganization(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetOrganization(a0); }); bad(r,"DLL_IGES::GetOrganization",how); }
  { at(how+" DLL_IGES::GetPreprocessorVersion(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetPreprocessorVersion(a0); }); bad(r,"DLL_IGES::GetPreprocessorVersion",how); }
  { at(how+" DLL_IGES::GetProductID_ReceivingSystem(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetProductID_ReceivingSystem(a0); }); bad(r,"DLL_IGES::GetProductID_ReceivingSystem",how); }
  { at(how+" DLL_IGES::GetProductID_SendingSystem(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetProductID_SendingSystem(a0); }); bad(r,"DLL_IGES::GetProductID_SendingSystem",how); }
  { at(how+" DLL_IGES::GetRawPtr()"); ev();  auto r=run([&]{ return h.DLL_IGES::GetRawPtr(); }); bad(r,"DLL_IGES::GetRawPtr",how); }
  { at(how+" DLL_IGES::GetUnitsFlag(IGES_UNIT&)"); ev(); IGES_UNIT a0=(IGES_UNIT)0; auto r=run([&]{ return h.DLL_IGES::GetUnitsFlag(a0); }); bad(r,"DLL_IGES::GetUnitsFlag",how); }
  { at(how+" DLL_IGES::GetUnitsName(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES::GetUnitsName(a0); }); bad(r,"DLL_IGES::GetUnitsName",how); }
  { at(how+" DLL_IGES::NewAPIEntity(IGES_ENTITY_TYPE, DLL_IGES_ENTITY*&)"); ev(); IGES_ENTITY_TYPE a0=(IGES_ENTITY_TYPE)0; DLL_IGES_ENTITY* a1=new DLL_IGES_ENTITY_110((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES::NewAPIEntity(a0,a1); }); bad(r,"DLL_IGES::NewAPIEntity",how); }
  { at(how+" DLL_IGES::NewIGESEntity(IGES_ENTITY_TYPE, IGES_ENTITY**)"); ev(); IGES_ENTITY_TYPE a0=(IGES_ENTITY_TYPE)0; IGES_ENTITY** a1=0; auto r=run([&]{ return h.DLL_IGES::NewIGESEntity(a0,a1); }); bad(r,"DLL_IGES::NewIGESEntity",how); }
  { at(how+" DLL_IGES::Read(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES::Read(a0); }); bad(r,"DLL_IGES::Read",how); }
  { at(how+" DLL_IGES::SetApplicationNote(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES::SetApplicationNote(a0); }); bad(r,"DLL_IGES::SetApplicationNote",how); }
  { at(how+" DLL_IGES::SetAuthor(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES::SetAuthor(a0); }); bad(r,"DLL_IGES::SetAuthor",how); }
  { at(how+" DLL_IGES::SetDraftingStandard(IGES_DRAFTING_STANDARD)"); ev(); IGES_DRAFTING_STANDARD a0=(IGES_DRAFTING_STANDARD)0; auto r=run([&]{ return h.DLL_IGES::SetDraftingStandard(a0); }); bad(r,"DLL_IGES::SetDraftingStandard",how); }
  { at(how+" DLL_IGES::SetMaxLineWidth(double)"); ev(); double a0=1; auto r=run([&]{ return h.DLL_IGES::SetMaxLineWidth(a0); }); bad(r,"DLL_IGES::SetMaxLineWidth",how); }
  { at(how+" DLL_IGES::SetMaxLineWidthGrad(int)"); ev(); int a0=1; auto r=run([&]{ return h.DLL_IGES::SetMaxLineWidthGrad(a0); }); bad(r,"DLL_IGES::SetMaxLineWidthGrad",how); }
  { at(how+" DLL_IGES::SetMinResolution(double)"); ev(); double a0=1; auto r=run([&]{ return h.DLL_IGES::SetMinResolution(a0); }); bad(r,"DLL_IGES::SetMinResolution",how); }
  { at(how+" DLL_IGES::SetNativeSystemID(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES::SetNativeSystemID(a0); }); bad(r,"DLL_IGES::SetNativeSystemID",how); }
  { at(how+" DLL_IGES::SetOrganization(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES::SetOrganization(a0); }); bad(r,"DLL_IGES::SetOrganization",how); }
  { at(how+" DLL_IGES::SetProductID_ReceivingSystem(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES::SetProductID_ReceivingSystem(a0); }); bad(r,"DLL_IGES::SetProductID_ReceivingSystem",how); }
  { at(how+" DLL_IGES::SetProductID_SendingSystem(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES::SetProductID_SendingSystem(a0); }); bad(r,"DLL_IGES::SetProductID_SendingSystem",how); }
  { at(how+" DLL_IGES::SetUnitsFlag(IGES_UNIT)"); ev(); IGES_UNIT a0=(IGES_UNIT)0; auto r=run([&]{ return h.DLL_IGES::SetUnitsFlag(a0); }); bad(r,"DLL_IGES::SetUnitsFlag",how); }
  { at(how+" DLL_IGES::UnlinkEntity(DLL_IGES_ENTITY*)"); ev(); DLL_IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES::UnlinkEntity(a0); }); bad(r,"DLL_IGES::UnlinkEntity",how); }
  { at(how+" DLL_IGES::UnlinkEntity(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES::UnlinkEntity(a0); }); bad(r,"DLL_IGES::UnlinkEntity",how); }
  { at(how+" DLL_IGES::Write(char const*, bool)"); ev(); const char* a0="x"; bool a1=1; auto r=run([&]{ return h.DLL_IGES::Write(a0,a1); }); bad(r,"DLL_IGES::Write",how); }
}
static void calls_DLL_IGES_CURVE(DLL_IGES_CURVE& h,const std::string& how){
  { at(how+" DLL_IGES_CURVE::GetCurve(int)"); ev(); int a0=1; auto r=run([&]{ return h.DLL_IGES_CURVE::GetCurve(a0); }); bad(r,"DLL_IGES_CURVE::GetCurve",how); }
  { at(how+" DLL_IGES_CURVE::GetEndPoint(MCAD_POINT&, bool)"); ev(); MCAD_POINT a0{}; bool a1=1; auto r=run([&]{ return h.DLL_IGES_CURVE::GetEndPoint(a0,a1); }); bad(r,"DLL_IGES_CURVE::GetEndPoint",how); }
  { at(how+" DLL_IGES_CURVE::GetNCurves()"); ev();  auto r=run([&]{ return h.DLL_IGES_CURVE::GetNCurves(); }); bad(r,"DLL_IGES_CURVE::GetNCurves",how); }
  { at(how+" DLL_IGES_CURVE::GetNSegments()"); ev();  auto r=run([&]{ return h.DLL_IGES_CURVE::GetNSegments(); }); bad(r,"DLL_IGES_CURVE::GetNSegments",how); }
  { at(how+" DLL_IGES_CURVE::GetStartPoint(MCAD_POINT&, bool)"); ev(); MCAD_POINT a0{}; bool a1=1; auto r=run([&]{ return h.DLL_IGES_CURVE::GetStartPoint(a0,a1); }); bad(r,"DLL_IGES_CURVE::GetStartPoint",how); }
  { at(how+" DLL_IGES_CURVE::IsClosed()"); ev();  auto r=run([&]{ return h.DLL_IGES_CURVE::IsClosed(); }); bad(r,"DLL_IGES_CURVE::IsClosed",how); }
}
static void calls_DLL_IGES_ENTITY(DLL_IGES_ENTITY& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY::AddComment(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::AddComment(a0); }); bad(r,"DLL_IGES_ENTITY::AddComment",how); }
  { at(how+" DLL_IGES_ENTITY::AddOptionalEntity(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY::AddOptionalEntity(a0); }); bad(r,"DLL_IGES_ENTITY::AddOptionalEntity",how); }
  { at(how+" DLL_IGES_ENTITY::AddOptionalEntity(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::AddOptionalEntity(a0); }); bad(r,"DLL_IGES_ENTITY::AddOptionalEntity",how); }
  { at(how+" DLL_IGES_ENTITY::ClearComments()"); ev();  auto r=run([&]{ return h.DLL_IGES_ENTITY::ClearComments(); }); bad(r,"DLL_IGES_ENTITY::ClearComments",how); }
  { at(how+" DLL_IGES_ENTITY::DelComment(int)"); ev(); int a0=1; auto r=run([&]{ return h.DLL_IGES_ENTITY::DelComment(a0); }); bad(r,"DLL_IGES_ENTITY::DelComment",how); }
  { at(how+" DLL_IGES_ENTITY::DelOptionalEntity(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY::DelOptionalEntity(a0); }); bad(r,"DLL_IGES_ENTITY::DelOptionalEntity",how); }
  { at(how+" DLL_IGES_ENTITY::DelOptionalEntity(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::DelOptionalEntity(a0); }); bad(r,"DLL_IGES_ENTITY::DelOptionalEntity",how); }
  { at(how+" DLL_IGES_ENTITY::GetColor(IGES_COLOR&)"); ev(); IGES_COLOR a0=(IGES_COLOR)0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetColor(a0); }); bad(r,"DLL_IGES_ENTITY::GetColor",how); }
  { at(how+" DLL_IGES_ENTITY::GetColorEntity(IGES_ENTITY*&)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetColorEntity(a0); }); bad(r,"DLL_IGES_ENTITY::GetColorEntity",how); }
  { at(how+" DLL_IGES_ENTITY::GetComments(unsigned long&, char const**&)"); ev(); unsigned long a0{}; const char** a1=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetComments(a0,a1); }); bad(r,"DLL_IGES_ENTITY::GetComments",how); }
  { at(how+" DLL_IGES_ENTITY::GetDependency(IGES_STAT_DEPENDS&)"); ev(); IGES_STAT_DEPENDS a0=(IGES_STAT_DEPENDS)0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetDependency(a0); }); bad(r,"DLL_IGES_ENTITY::GetDependency",how); }
  { at(how+" DLL_IGES_ENTITY::GetEntityForm(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetEntityForm(a0); }); bad(r,"DLL_IGES_ENTITY::GetEntityForm",how); }
  { at(how+" DLL_IGES_ENTITY::GetEntitySubscript(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetEntitySubscript(a0); }); bad(r,"DLL_IGES_ENTITY::GetEntitySubscript",how); }
  { at(how+" DLL_IGES_ENTITY::GetEntityType(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetEntityType(a0); }); bad(r,"DLL_IGES_ENTITY::GetEntityType",how); }
  { at(how+" DLL_IGES_ENTITY::GetEntityUse(IGES_STAT_USE&)"); ev(); IGES_STAT_USE a0=(IGES_STAT_USE)0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetEntityUse(a0); }); bad(r,"DLL_IGES_ENTITY::GetEntityUse",how); }
  { at(how+" DLL_IGES_ENTITY::GetHierarchy(IGES_STAT_HIER&)"); ev(); IGES_STAT_HIER a0=(IGES_STAT_HIER)0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetHierarchy(a0); }); bad(r,"DLL_IGES_ENTITY::GetHierarchy",how); }
  { at(how+" DLL_IGES_ENTITY::GetLabel(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetLabel(a0); }); bad(r,"DLL_IGES_ENTITY::GetLabel",how); }
  { at(how+" DLL_IGES_ENTITY::GetLabelAssoc(IGES_ENTITY*&)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetLabelAssoc(a0); }); bad(r,"DLL_IGES_ENTITY::GetLabelAssoc",how); }
  { at(how+" DLL_IGES_ENTITY::GetLevel(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetLevel(a0); }); bad(r,"DLL_IGES_ENTITY::GetLevel",how); }
  { at(how+" DLL_IGES_ENTITY::GetLevelEntity(IGES_ENTITY*&)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetLevelEntity(a0); }); bad(r,"DLL_IGES_ENTITY::GetLevelEntity",how); }
  { at(how+" DLL_IGES_ENTITY::GetLineFontPattern(IGES_LINEFONT_PATTERN&)"); ev(); IGES_LINEFONT_PATTERN a0=(IGES_LINEFONT_PATTERN)0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetLineFontPattern(a0); }); bad(r,"DLL_IGES_ENTITY::GetLineFontPattern",how); }
  { at(how+" DLL_IGES_ENTITY::GetLineFontPatternEntity(IGES_ENTITY*&)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetLineFontPatternEntity(a0); }); bad(r,"DLL_IGES_ENTITY::GetLineFontPatternEntity",how); }
  { at(how+" DLL_IGES_ENTITY::GetLineWeightNum(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetLineWeightNum(a0); }); bad(r,"DLL_IGES_ENTITY::GetLineWeightNum",how); }
  { at(how+" DLL_IGES_ENTITY::GetNComments(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetNComments(a0); }); bad(r,"DLL_IGES_ENTITY::GetNComments",how); }
  { at(how+" DLL_IGES_ENTITY::GetNOptionalEntities(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetNOptionalEntities(a0); }); bad(r,"DLL_IGES_ENTITY::GetNOptionalEntities",how); }
  { at(how+" DLL_IGES_ENTITY::GetOptionalEntities(unsigned long&, IGES_ENTITY**&)"); ev(); unsigned long a0{}; IGES_ENTITY** a1=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetOptionalEntities(a0,a1); }); bad(r,"DLL_IGES_ENTITY::GetOptionalEntities",how); }
  { at(how+" DLL_IGES_ENTITY::GetParentIGES(IGES*&)"); ev(); IGES* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetParentIGES(a0); }); bad(r,"DLL_IGES_ENTITY::GetParentIGES",how); }
  { at(how+" DLL_IGES_ENTITY::GetRawPtr()"); ev();  auto r=run([&]{ return h.DLL_IGES_ENTITY::GetRawPtr(); }); bad(r,"DLL_IGES_ENTITY::GetRawPtr",how); }
  { at(how+" DLL_IGES_ENTITY::GetStructure(IGES_ENTITY*&)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetStructure(a0); }); bad(r,"DLL_IGES_ENTITY::GetStructure",how); }
  { at(how+" DLL_IGES_ENTITY::GetTransform(IGES_ENTITY*&)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetTransform(a0); }); bad(r,"DLL_IGES_ENTITY::GetTransform",how); }
  { at(how+" DLL_IGES_ENTITY::GetView(IGES_ENTITY*&)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetView(a0); }); bad(r,"DLL_IGES_ENTITY::GetView",how); }
  { at(how+" DLL_IGES_ENTITY::GetVisibility(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_IGES_ENTITY::GetVisibility(a0); }); bad(r,"DLL_IGES_ENTITY::GetVisibility",how); }
  { at(how+" DLL_IGES_ENTITY::SetColor(DLL_IGES_ENTITY_314&)"); ev(); DLL_IGES_ENTITY_314 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY::SetColor(a0); }); bad(r,"DLL_IGES_ENTITY::SetColor",how); }
  { at(how+" DLL_IGES_ENTITY::SetColor(IGES_COLOR)"); ev(); IGES_COLOR a0=(IGES_COLOR)0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetColor(a0); }); bad(r,"DLL_IGES_ENTITY::SetColor",how); }
  { at(how+" DLL_IGES_ENTITY::SetColor(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetColor(a0); }); bad(r,"DLL_IGES_ENTITY::SetColor",how); }
  { at(how+" DLL_IGES_ENTITY::SetDependency(IGES_STAT_DEPENDS)"); ev(); IGES_STAT_DEPENDS a0=(IGES_STAT_DEPENDS)0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetDependency(a0); }); bad(r,"DLL_IGES_ENTITY::SetDependency",how); }
  { at(how+" DLL_IGES_ENTITY::SetEntityForm(int)"); ev(); int a0=1; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetEntityForm(a0); }); bad(r,"DLL_IGES_ENTITY::SetEntityForm",how); }
  { at(how+" DLL_IGES_ENTITY::SetEntitySubscript(int)"); ev(); int a0=1; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetEntitySubscript(a0); }); bad(r,"DLL_IGES_ENTITY::SetEntitySubscript",how); }
  { at(how+" DLL_IGES_ENTITY::SetEntityUse(IGES_STAT_USE)"); ev(); IGES_STAT_USE a0=(IGES_STAT_USE)0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetEntityUse(a0); }); bad(r,"DLL_IGES_ENTITY::SetEntityUse",how); }
  { at(how+" DLL_IGES_ENTITY::SetHierarchy(IGES_STAT_HIER)"); ev(); IGES_STAT_HIER a0=(IGES_STAT_HIER)0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetHierarchy(a0); }); bad(r,"DLL_IGES_ENTITY::SetHierarchy",how); }
  { at(how+" DLL_IGES_ENTITY::SetLabel(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetLabel(a0); }); bad(r,"DLL_IGES_ENTITY::SetLabel",how); }
  { at(how+" DLL_IGES_ENTITY::SetLabelAssoc(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY::SetLabelAssoc(a0); }); bad(r,"DLL_IGES_ENTITY::SetLabelAssoc",how); }
  { at(how+" DLL_IGES_ENTITY::SetLabelAssoc(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetLabelAssoc(a0); }); bad(r,"DLL_IGES_ENTITY::SetLabelAssoc",how); }
  { at(how+" DLL_IGES_ENTITY::SetLevel(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY::SetLevel(a0); }); bad(r,"DLL_IGES_ENTITY::SetLevel",how); }
  { at(how+" DLL_IGES_ENTITY::SetLevel(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetLevel(a0); }); bad(r,"DLL_IGES_ENTITY::SetLevel",how); }
  { at(how+" DLL_IGES_ENTITY::SetLevel(int)"); ev(); int a0=1; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetLevel(a0); }); bad(r,"DLL_IGES_ENTITY::SetLevel",how); }
  { at(how+" DLL_IGES_ENTITY::SetLineFontPattern(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY::SetLineFontPattern(a0); }); bad(r,"DLL_IGES_ENTITY::SetLineFontPattern",how); }
  { at(how+" DLL_IGES_ENTITY::SetLineFontPattern(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetLineFontPattern(a0); }); bad(r,"DLL_IGES_ENTITY::SetLineFontPattern",how); }
  { at(how+" DLL_IGES_ENTITY::SetLineFontPattern(IGES_LINEFONT_PATTERN)"); ev(); IGES_LINEFONT_PATTERN a0=(IGES_LINEFONT_PATTERN)0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetLineFontPattern(a0); }); bad(r,"DLL_IGES_ENTITY::SetLineFontPattern",how); }
  { at(how+" DLL_IGES_ENTITY::SetLineWeightNum(int)"); ev(); int a0=1; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetLineWeightNum(a0); }); bad(r,"DLL_IGES_ENTITY::SetLineWeightNum",how); }
  { at(how+" DLL_IGES_ENTITY::SetParentIGES(DLL_IGES&)"); ev(); DLL_IGES a0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetParentIGES(a0); }); bad(r,"DLL_IGES_ENTITY::SetParentIGES",how); }
  { at(how+" DLL_IGES_ENTITY::SetParentIGES(IGES*)"); ev(); IGES* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetParentIGES(a0); }); bad(r,"DLL_IGES_ENTITY::SetParentIGES",how); }
  { at(how+" DLL_IGES_ENTITY::SetStructure(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY::SetStructure(a0); }); bad(r,"DLL_IGES_ENTITY::SetStructure",how); }
  { at(how+" DLL_IGES_ENTITY::SetStructure(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetStructure(a0); }); bad(r,"DLL_IGES_ENTITY::SetStructure",how); }
  { at(how+" DLL_IGES_ENTITY::SetTransform(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY::SetTransform(a0); }); bad(r,"DLL_IGES_ENTITY::SetTransform",how); }
  { at(how+" DLL_IGES_ENTITY::SetTransform(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetTransform(a0); }); bad(r,"DLL_IGES_ENTITY::SetTransform",how); }
  { at(how+" DLL_IGES_ENTITY::SetView(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY::SetView(a0); }); bad(r,"DLL_IGES_ENTITY::SetView",how); }
  { at(how+" DLL_IGES_ENTITY::SetView(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetView(a0); }); bad(r,"DLL_IGES_ENTITY::SetView",how); }
  { at(how+" DLL_IGES_ENTITY::SetVisibility(bool)"); ev(); bool a0=1; auto r=run([&]{ return h.DLL_IGES_ENTITY::SetVisibility(a0); }); bad(r,"DLL_IGES_ENTITY::SetVisibility",how); }
}
static void calls_DLL_IGES_ENTITY_100(DLL_IGES_ENTITY_100& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_100::GetCircleCenter(MCAD_POINT&) const"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::GetCircleCenter(a0); }); bad(r,"DLL_IGES_ENTITY_100::GetCircleCenter",how); }
  { at(how+" DLL_IGES_ENTITY_100::GetCircleCenter(double&, double&, double&) const"); ev(); double a0{}; double a1{}; double a2{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::GetCircleCenter(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_100::GetCircleCenter",how); }
  { at(how+" DLL_IGES_ENTITY_100::GetCircleEnd(MCAD_POINT&) const"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::GetCircleEnd(a0); }); bad(r,"DLL_IGES_ENTITY_100::GetCircleEnd",how); }
  { at(how+" DLL_IGES_ENTITY_100::GetCircleEnd(double&, double&, double&) const"); ev(); double a0{}; double a1{}; double a2{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::GetCircleEnd(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_100::GetCircleEnd",how); }
  { at(how+" DLL_IGES_ENTITY_100::GetCircleStart(MCAD_POINT&) const"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::GetCircleStart(a0); }); bad(r,"DLL_IGES_ENTITY_100::GetCircleStart",how); }
  { at(how+" DLL_IGES_ENTITY_100::GetCircleStart(double&, double&, double&) const"); ev(); double a0{}; double a1{}; double a2{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::GetCircleStart(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_100::GetCircleStart",how); }
  { at(how+" DLL_IGES_ENTITY_100::SetCircleCenter(MCAD_POINT const&)"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::SetCircleCenter(a0); }); bad(r,"DLL_IGES_ENTITY_100::SetCircleCenter",how); }
  { at(how+" DLL_IGES_ENTITY_100::SetCircleCenter(double, double, double)"); ev(); double a0=1; double a1=1; double a2=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::SetCircleCenter(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_100::SetCircleCenter",how); }
  { at(how+" DLL_IGES_ENTITY_100::SetCircleEnd(MCAD_POINT const&)"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::SetCircleEnd(a0); }); bad(r,"DLL_IGES_ENTITY_100::SetCircleEnd",how); }
  { at(how+" DLL_IGES_ENTITY_100::SetCircleEnd(double, double)"); ev(); double a0=1; double a1=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::SetCircleEnd(a0,a1); }); bad(r,"DLL_IGES_ENTITY_100::SetCircleEnd",how); }
  { at(how+" DLL_IGES_ENTITY_100::SetCircleStart(MCAD_POINT const&)"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::SetCircleStart(a0); }); bad(r,"DLL_IGES_ENTITY_100::SetCircleStart",how); }
  { at(how+" DLL_IGES_ENTITY_100::SetCircleStart(double, double)"); ev(); double a0=1; double a1=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_100::SetCircleStart(a0,a1); }); bad(r,"DLL_IGES_ENTITY_100::SetCircleStart",how); }
}
static void calls_DLL_IGES_ENTITY_102(DLL_IGES_ENTITY_102& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_102::AddSegment(DLL_IGES_CURVE&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_102::AddSegment(a0); }); bad(r,"DLL_IGES_ENTITY_102::AddSegment",how); }
  { at(how+" DLL_IGES_ENTITY_102::AddSegment(IGES_CURVE*)"); ev(); IGES_CURVE* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_102::AddSegment(a0); }); bad(r,"DLL_IGES_ENTITY_102::AddSegment",how); }
}
static void calls_DLL_IGES_ENTITY_104(DLL_IGES_ENTITY_104& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_104::GetConicEnd(MCAD_POINT&)"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_104::GetConicEnd(a0); }); bad(r,"DLL_IGES_ENTITY_104::GetConicEnd",how); }
  { at(how+" DLL_IGES_ENTITY_104::GetConicEnd(double&, double&, double&)"); ev(); double a0{}; double a1{}; double a2{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_104::GetConicEnd(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_104::GetConicEnd",how); }
  { at(how+" DLL_IGES_ENTITY_104::GetConicParams(double&, double&, double&, double&, double&, double&)"); ev(); double a0{}; double a1{}; double a2{}; double a3{}; double a4{}; double a5{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_104::GetConicParams(a0,a1,a2,a3,a4,a5); }); bad(r,"DLL_IGES_ENTITY_104::GetConicParams",how); }
  { at(how+" DLL_IGES_ENTITY_104::GetConicStart(MCAD_POINT&)"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_104::GetConicStart(a0); }); bad(r,"DLL_IGES_ENTITY_104::GetConicStart",how); }
  { at(how+" DLL_IGES_ENTITY_104::GetConicStart(double&, double&, double&)"); ev(); double a0{}; double a1{}; double a2{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_104::GetConicStart(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_104::GetConicStart",how); }
  { at(how+" DLL_IGES_ENTITY_104::SetConicEnd(MCAD_POINT)"); ev(); MCAD_POINT a0={}; auto r=run([&]{ return h.DLL_IGES_ENTITY_104::SetConicEnd(a0); }); bad(r,"DLL_IGES_ENTITY_104::SetConicEnd",how); }
  { at(how+" DLL_IGES_ENTITY_104::SetConicEnd(double, double)"); ev(); double a0=1; double a1=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_104::SetConicEnd(a0,a1); }); bad(r,"DLL_IGES_ENTITY_104::SetConicEnd",how); }
  { at(how+" DLL_IGES_ENTITY_104::SetConicParams(double, double, double, double, double, double)"); ev(); double a0=1; double a1=1; double a2=1; double a3=1; double a4=1; double a5=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_104::SetConicParams(a0,a1,a2,a3,a4,a5); }); bad(r,"DLL_IGES_ENTITY_104::SetConicParams",how); }
  { at(how+" DLL_IGES_ENTITY_104::SetConicStart(MCAD_POINT)"); ev(); MCAD_POINT a0={}; auto r=run([&]{ return h.DLL_IGES_ENTITY_104::SetConicStart(a0); }); bad(r,"DLL_IGES_ENTITY_104::SetConicStart",how); }
  { at(how+" DLL_IGES_ENTITY_104::SetConicStart(double, double, double)"); ev(); double a0=1; double a1=1; double a2=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_104::SetConicStart(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_104::SetConicStart",how); }
}
static void calls_DLL_IGES_ENTITY_110(DLL_IGES_ENTITY_110& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_110::GetLineEnd(MCAD_POINT&)"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_110::GetLineEnd(a0); }); bad(r,"DLL_IGES_ENTITY_110::GetLineEnd",how); }
  { at(how+" DLL_IGES_ENTITY_110::GetLineEnd(double&, double&, double&)"); ev(); double a0{}; double a1{}; double a2{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_110::GetLineEnd(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_110::GetLineEnd",how); }
  { at(how+" DLL_IGES_ENTITY_110::GetLineStart(MCAD_POINT&)"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_110::GetLineStart(a0); }); bad(r,"DLL_IGES_ENTITY_110::GetLineStart",how); }
  { at(how+" DLL_IGES_ENTITY_110::GetLineStart(double&, double&, double&)"); ev(); double a0{}; double a1{}; double a2{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_110::GetLineStart(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_110::GetLineStart",how); }
  { at(how+" DLL_IGES_ENTITY_110::SetLineEnd(MCAD_POINT)"); ev(); MCAD_POINT a0={}; auto r=run([&]{ return h.DLL_IGES_ENTITY_110::SetLineEnd(a0); }); bad(r,"DLL_IGES_ENTITY_110::SetLineEnd",how); }
  { at(how+" DLL_IGES_ENTITY_110::SetLineEnd(double, double, double)"); ev(); double a0=1; double a1=1; double a2=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_110::SetLineEnd(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_110::SetLineEnd",how); }
  { at(how+" DLL_IGES_ENTITY_110::SetLineStart(MCAD_POINT)"); ev(); MCAD_POINT a0={}; auto r=run([&]{ return h.DLL_IGES_ENTITY_110::SetLineStart(a0); }); bad(r,"DLL_IGES_ENTITY_110::SetLineStart",how); }
  { at(how+" DLL_IGES_ENTITY_110::SetLineStart(double, double, double)"); ev(); double a0=1; double a1=1; double a2=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_110::SetLineStart(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_110::SetLineStart",how); }
}
static void calls_DLL_IGES_ENTITY_120(DLL_IGES_ENTITY_120& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_120::GetAngles(double&, double&)"); ev(); double a0{}; double a1{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_120::GetAngles(a0,a1); }); bad(r,"DLL_IGES_ENTITY_120::GetAngles",how); }
  { at(how+" DLL_IGES_ENTITY_120::GetAxis(IGES_CURVE**)"); ev(); IGES_CURVE** a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_120::GetAxis(a0); }); bad(r,"DLL_IGES_ENTITY_120::GetAxis",how); }
  { at(how+" DLL_IGES_ENTITY_120::GetGeneratrix(IGES_CURVE**)"); ev(); IGES_CURVE** a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_120::GetGeneratrix(a0); }); bad(r,"DLL_IGES_ENTITY_120::GetGeneratrix",how); }
  { at(how+" DLL_IGES_ENTITY_120::SetAngles(double, double)"); ev(); double a0=1; double a1=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_120::SetAngles(a0,a1); }); bad(r,"DLL_IGES_ENTITY_120::SetAngles",how); }
  { at(how+" DLL_IGES_ENTITY_120::SetAxis(DLL_IGES_CURVE&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_120::SetAxis(a0); }); bad(r,"DLL_IGES_ENTITY_120::SetAxis",how); }
  { at(how+" DLL_IGES_ENTITY_120::SetAxis(IGES_CURVE*)"); ev(); IGES_CURVE* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_120::SetAxis(a0); }); bad(r,"DLL_IGES_ENTITY_120::SetAxis",how); }
  { at(how+" DLL_IGES_ENTITY_120::SetGeneratrix(DLL_IGES_CURVE&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_120::SetGeneratrix(a0); }); bad(r,"DLL_IGES_ENTITY_120::SetGeneratrix",how); }
  { at(how+" DLL_IGES_ENTITY_120::SetGeneratrix(IGES_CURVE*)"); ev(); IGES_CURVE* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_120::SetGeneratrix(a0); }); bad(r,"DLL_IGES_ENTITY_120::SetGeneratrix",how); }
}
static void calls_DLL_IGES_ENTITY_122(DLL_IGES_ENTITY_122& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_122::GetDirectrix(IGES_CURVE*&)"); ev(); IGES_CURVE* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_122::GetDirectrix(a0); }); bad(r,"DLL_IGES_ENTITY_122::GetDirectrix",how); }
  { at(how+" DLL_IGES_ENTITY_122::GetGeneratrixEnd(MCAD_POINT&)"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_122::GetGeneratrixEnd(a0); }); bad(r,"DLL_IGES_ENTITY_122::GetGeneratrixEnd",how); }
  { at(how+" DLL_IGES_ENTITY_122::GetGeneratrixEnd(double&, double&, double&)"); ev(); double a0{}; double a1{}; double a2{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_122::GetGeneratrixEnd(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_122::GetGeneratrixEnd",how); }
  { at(how+" DLL_IGES_ENTITY_122::SetDirectrix(IGES_CURVE*)"); ev(); IGES_CURVE* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_122::SetDirectrix(a0); }); bad(r,"DLL_IGES_ENTITY_122::SetDirectrix",how); }
  { at(how+" DLL_IGES_ENTITY_122::SetGeneratrixEnd(MCAD_POINT)"); ev(); MCAD_POINT a0={}; auto r=run([&]{ return h.DLL_IGES_ENTITY_122::SetGeneratrixEnd(a0); }); bad(r,"DLL_IGES_ENTITY_122::SetGeneratrixEnd",how); }
  { at(how+" DLL_IGES_ENTITY_122::SetGeneratrixEnd(double, double, double)"); ev(); double a0=1; double a1=1; double a2=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_122::SetGeneratrixEnd(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_122::SetGeneratrixEnd",how); }
}
static void calls_DLL_IGES_ENTITY_124(DLL_IGES_ENTITY_124& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_124::GetOverallTransform(MCAD_TRANSFORM&)"); ev(); MCAD_TRANSFORM a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_124::GetOverallTransform(a0); }); bad(r,"DLL_IGES_ENTITY_124::GetOverallTransform",how); }
  { at(how+" DLL_IGES_ENTITY_124::GetRootTransform(MCAD_TRANSFORM&)"); ev(); MCAD_TRANSFORM a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_124::GetRootTransform(a0); }); bad(r,"DLL_IGES_ENTITY_124::GetRootTransform",how); }
  { at(how+" DLL_IGES_ENTITY_124::SetRootTransform(MCAD_TRANSFORM&)"); ev(); MCAD_TRANSFORM a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_124::SetRootTransform(a0); }); bad(r,"DLL_IGES_ENTITY_124::SetRootTransform",how); }
  { at(how+" DLL_IGES_ENTITY_124::SetRootTransform(MCAD_TRANSFORM*)"); ev(); MCAD_TRANSFORM* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_124::SetRootTransform(a0); }); bad(r,"DLL_IGES_ENTITY_124::SetRootTransform",how); }
}
static void calls_DLL_IGES_ENTITY_126(DLL_IGES_ENTITY_126& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_126::GetNURBSData(int&, int&, double**, double**, bool&, bool&, bool&, double&, double&)"); ev(); int a0{}; int a1{}; double** a2=0; double** a3=0; bool a4=false; bool a5=false; bool a6=false; double a7{}; double a8{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_126::GetNURBSData(a0,a1,a2,a3,a4,a5,a6,a7,a8); }); bad(r,"DLL_IGES_ENTITY_126::GetNURBSData",how); }
  { at(how+" DLL_IGES_ENTITY_126::GetNormal(MCAD_POINT&)"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_126::GetNormal(a0); }); bad(r,"DLL_IGES_ENTITY_126::GetNormal",how); }
  { at(how+" DLL_IGES_ENTITY_126::IsPlanar(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_IGES_ENTITY_126::IsPlanar(a0); }); bad(r,"DLL_IGES_ENTITY_126::IsPlanar",how); }
  { at(how+" DLL_IGES_ENTITY_126::IsRational(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_IGES_ENTITY_126::IsRational(a0); }); bad(r,"DLL_IGES_ENTITY_126::IsRational",how); }
  { at(how+" DLL_IGES_ENTITY_126::SetNURBSData(int, int, double const*, double const*, bool, double, double)"); ev(); int a0=1; int a1=1; double const* a2=0; double const* a3=0; bool a4=1; double a5=1; double a6=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_126::SetNURBSData(a0,a1,a2,a3,a4,a5,a6); }); bad(r,"DLL_IGES_ENTITY_126::SetNURBSData",how); }
  { at(how+" DLL_IGES_ENTITY_126::isPeriodic(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_IGES_ENTITY_126::isPeriodic(a0); }); bad(r,"DLL_IGES_ENTITY_126::isPeriodic",how); }
}
static void calls_DLL_IGES_ENTITY_128(DLL_IGES_ENTITY_128& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_128::GetNURBSData(int&, int&, int&, int&, double**, double**, double**, bool&, bool&, bool&, bool&, bool&, double&, double&, double&, double&)"); ev(); int a0{}; int a1{}; int a2{}; int a3{}; double** a4=0; double** a5=0; double** a6=0; bool a7=false; bool a8=false; bool a9=false; bool a10=false; bool a11=false; double a12{}; double a13{}; double a14{}; double a15{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_128::GetNURBSData(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15); }); bad(r,"DLL_IGES_ENTITY_128::GetNURBSData",how); }
  { at(how+" DLL_IGES_ENTITY_128::IsRational(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_IGES_ENTITY_128::IsRational(a0); }); bad(r,"DLL_IGES_ENTITY_128::IsRational",how); }
  { at(how+" DLL_IGES_ENTITY_128::SetNURBSData(int, int, int, int, double const*, double const*, double const*, bool, bool, bool, double, double, double, double)"); ev(); int a0=1; int a1=1; int a2=1; int a3=1; double const* a4=0; double const* a5=0; double const* a6=0; bool a7=1; bool a8=1; bool a9=1; double a10=1; double a11=1; double a12=1; double a13=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_128::SetNURBSData(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13); }); bad(r,"DLL_IGES_ENTITY_128::SetNURBSData",how); }
  { at(how+" DLL_IGES_ENTITY_128::isClosed1(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_IGES_ENTITY_128::isClosed1(a0); }); bad(r,"DLL_IGES_ENTITY_128::isClosed1",how); }
  { at(how+" DLL_IGES_ENTITY_128::isClosed2(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_IGES_ENTITY_128::isClosed2(a0); }); bad(r,"DLL_IGES_ENTITY_128::isClosed2",how); }
  { at(how+" DLL_IGES_ENTITY_128::isPeriodic1(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_IGES_ENTITY_128::isPeriodic1(a0); }); bad(r,"DLL_IGES_ENTITY_128::isPeriodic1",how); }
  { at(how+" DLL_IGES_ENTITY_128::isPeriodic2(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_IGES_ENTITY_128::isPeriodic2(a0); }); bad(r,"DLL_IGES_ENTITY_128::isPeriodic2",how); }
}
static void calls_DLL_IGES_ENTITY_142(DLL_IGES_ENTITY_142& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_142::GetCurveCreationFlag(CURVE_CREATION&)"); ev(); CURVE_CREATION a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_142::GetCurveCreationFlag(a0); }); bad(r,"DLL_IGES_ENTITY_142::GetCurveCreationFlag",how); }
  { at(how+" DLL_IGES_ENTITY_142::GetCurvePreference(BOUND_CURVE_PREF&)"); ev(); BOUND_CURVE_PREF a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_142::GetCurvePreference(a0); }); bad(r,"DLL_IGES_ENTITY_142::GetCurvePreference",how); }
  { at(how+" DLL_IGES_ENTITY_142::GetModelSpaceBound(IGES_ENTITY**)"); ev(); IGES_ENTITY** a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_142::GetModelSpaceBound(a0); }); bad(r,"DLL_IGES_ENTITY_142::GetModelSpaceBound",how); }
  { at(how+" DLL_IGES_ENTITY_142::GetParameterSpaceBound(IGES_ENTITY**)"); ev(); IGES_ENTITY** a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_142::GetParameterSpaceBound(a0); }); bad(r,"DLL_IGES_ENTITY_142::GetParameterSpaceBound",how); }
  { at(how+" DLL_IGES_ENTITY_142::GetSurface(IGES_ENTITY**)"); ev(); IGES_ENTITY** a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_142::GetSurface(a0); }); bad(r,"DLL_IGES_ENTITY_142::GetSurface",how); }
  { at(how+" DLL_IGES_ENTITY_142::SetCurveCreationFlag(CURVE_CREATION)"); ev(); CURVE_CREATION a0={}; auto r=run([&]{ return h.DLL_IGES_ENTITY_142::SetCurveCreationFlag(a0); }); bad(r,"DLL_IGES_ENTITY_142::SetCurveCreationFlag",how); }
  { at(how+" DLL_IGES_ENTITY_142::SetCurvePreference(BOUND_CURVE_PREF)"); ev(); BOUND_CURVE_PREF a0={}; auto r=run([&]{ return h.DLL_IGES_ENTITY_142::SetCurvePreference(a0); }); bad(r,"DLL_IGES_ENTITY_142::SetCurvePreference",how); }
  { at(how+" DLL_IGES_ENTITY_142::SetModelSpaceBound(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_142::SetModelSpaceBound(a0); }); bad(r,"DLL_IGES_ENTITY_142::SetModelSpaceBound",how); }
  { at(how+" DLL_IGES_ENTITY_142::SetModelSpaceBound(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_142::SetModelSpaceBound(a0); }); bad(r,"DLL_IGES_ENTITY_142::SetModelSpaceBound",how); }
  { at(how+" DLL_IGES_ENTITY_142::SetParameterSpaceBound(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_142::SetParameterSpaceBound(a0); }); bad(r,"DLL_IGES_ENTITY_142::SetParameterSpaceBound",how); }
  { at(how+" DLL_IGES_ENTITY_142::SetParameterSpaceBound(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_142::SetParameterSpaceBound(a0); }); bad(r,"DLL_IGES_ENTITY_142::SetParameterSpaceBound",how); }
  { at(how+" DLL_IGES_ENTITY_142::SetSurface(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_142::SetSurface(a0); }); bad(r,"DLL_IGES_ENTITY_142::SetSurface",how); }
  { at(how+" DLL_IGES_ENTITY_142::SetSurface(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_142::SetSurface(a0); }); bad(r,"DLL_IGES_ENTITY_142::SetSurface",how); }
}
static void calls_DLL_IGES_ENTITY_144(DLL_IGES_ENTITY_144& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_144::AddCutout(DLL_IGES_ENTITY_142&)"); ev(); DLL_IGES_ENTITY_142 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_144::AddCutout(a0); }); bad(r,"DLL_IGES_ENTITY_144::AddCutout",how); }
  { at(how+" DLL_IGES_ENTITY_144::AddCutout(IGES_ENTITY_142*)"); ev(); IGES_ENTITY_142* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_144::AddCutout(a0); }); bad(r,"DLL_IGES_ENTITY_144::AddCutout",how); }
  { at(how+" DLL_IGES_ENTITY_144::DelCutout(DLL_IGES_ENTITY_142&)"); ev(); DLL_IGES_ENTITY_142 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_144::DelCutout(a0); }); bad(r,"DLL_IGES_ENTITY_144::DelCutout",how); }
  { at(how+" DLL_IGES_ENTITY_144::DelCutout(IGES_ENTITY_142*)"); ev(); IGES_ENTITY_142* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_144::DelCutout(a0); }); bad(r,"DLL_IGES_ENTITY_144::DelCutout",how); }
  { at(how+" DLL_IGES_ENTITY_144::GetBoundCurve(IGES_ENTITY_142*&)"); ev(); IGES_ENTITY_142* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_144::GetBoundCurve(a0); }); bad(r,"DLL_IGES_ENTITY_144::GetBoundCurve",how); }
  { at(how+" DLL_IGES_ENTITY_144::GetCutouts(unsigned long&, IGES_ENTITY_142**&)"); ev(); unsigned long a0{}; IGES_ENTITY_142** a1=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_144::GetCutouts(a0,a1); }); bad(r,"DLL_IGES_ENTITY_144::GetCutouts",how); }
  { at(how+" DLL_IGES_ENTITY_144::GetNCutouts(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_144::GetNCutouts(a0); }); bad(r,"DLL_IGES_ENTITY_144::GetNCutouts",how); }
  { at(how+" DLL_IGES_ENTITY_144::GetSurface(IGES_ENTITY*&)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_144::GetSurface(a0); }); bad(r,"DLL_IGES_ENTITY_144::GetSurface",how); }
  { at(how+" DLL_IGES_ENTITY_144::SetBoundCurve(DLL_IGES_ENTITY_142&)"); ev(); DLL_IGES_ENTITY_142 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_144::SetBoundCurve(a0); }); bad(r,"DLL_IGES_ENTITY_144::SetBoundCurve",how); }
  { at(how+" DLL_IGES_ENTITY_144::SetBoundCurve(IGES_ENTITY_142*)"); ev(); IGES_ENTITY_142* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_144::SetBoundCurve(a0); }); bad(r,"DLL_IGES_ENTITY_144::SetBoundCurve",how); }
  { at(how+" DLL_IGES_ENTITY_144::SetSurface(DLL_IGES_ENTITY&)"); ev(); DLL_IGES_ENTITY_110 a0((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_144::SetSurface(a0); }); bad(r,"DLL_IGES_ENTITY_144::SetSurface",how); }
  { at(how+" DLL_IGES_ENTITY_144::SetSurface(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_144::SetSurface(a0); }); bad(r,"DLL_IGES_ENTITY_144::SetSurface",how); }
}
static void calls_DLL_IGES_ENTITY_308(DLL_IGES_ENTITY_308& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_308::AddDE(DLL_IGES_ENTITY*&)"); ev(); DLL_IGES_ENTITY* a0=new DLL_IGES_ENTITY_110((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_308::AddDE(a0); }); bad(r,"DLL_IGES_ENTITY_308::AddDE",how); }
  { at(how+" DLL_IGES_ENTITY_308::AddDE(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_308::AddDE(a0); }); bad(r,"DLL_IGES_ENTITY_308::AddDE",how); }
  { at(how+" DLL_IGES_ENTITY_308::DelDE(DLL_IGES_ENTITY*&)"); ev(); DLL_IGES_ENTITY* a0=new DLL_IGES_ENTITY_110((IGES*)0,false); auto r=run([&]{ return h.DLL_IGES_ENTITY_308::DelDE(a0); }); bad(r,"DLL_IGES_ENTITY_308::DelDE",how); }
  { at(how+" DLL_IGES_ENTITY_308::DelDE(IGES_ENTITY*)"); ev(); IGES_ENTITY* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_308::DelDE(a0); }); bad(r,"DLL_IGES_ENTITY_308::DelDE",how); }
  { at(how+" DLL_IGES_ENTITY_308::GetDEList(unsigned long&, IGES_ENTITY**&)"); ev(); unsigned long a0{}; IGES_ENTITY** a1=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_308::GetDEList(a0,a1); }); bad(r,"DLL_IGES_ENTITY_308::GetDEList",how); }
  { at(how+" DLL_IGES_ENTITY_308::GetName(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_308::GetName(a0); }); bad(r,"DLL_IGES_ENTITY_308::GetName",how); }
  { at(how+" DLL_IGES_ENTITY_308::GetNestDepth(int&)"); ev(); int a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_308::GetNestDepth(a0); }); bad(r,"DLL_IGES_ENTITY_308::GetNestDepth",how); }
  { at(how+" DLL_IGES_ENTITY_308::GetNumDE(unsigned long&)"); ev(); unsigned long a0{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_308::GetNumDE(a0); }); bad(r,"DLL_IGES_ENTITY_308::GetNumDE",how); }
  { at(how+" DLL_IGES_ENTITY_308::SetName(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES_ENTITY_308::SetName(a0); }); bad(r,"DLL_IGES_ENTITY_308::SetName",how); }
}
static void calls_DLL_IGES_ENTITY_314(DLL_IGES_ENTITY_314& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_314::GetColor(double&, double&, double&)"); ev(); double a0{}; double a1{}; double a2{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_314::GetColor(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_314::GetColor",how); }
  { at(how+" DLL_IGES_ENTITY_314::GetName(char const*&)"); ev(); const char* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_314::GetName(a0); }); bad(r,"DLL_IGES_ENTITY_314::GetName",how); }
  { at(how+" DLL_IGES_ENTITY_314::SetColor(double, double, double)"); ev(); double a0=1; double a1=1; double a2=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_314::SetColor(a0,a1,a2); }); bad(r,"DLL_IGES_ENTITY_314::SetColor",how); }
  { at(how+" DLL_IGES_ENTITY_314::SetName(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES_ENTITY_314::SetName(a0); }); bad(r,"DLL_IGES_ENTITY_314::SetName",how); }
}
static void calls_DLL_IGES_ENTITY_406(DLL_IGES_ENTITY_406& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_406::GetProperty_Name()"); ev();  auto r=run([&]{ return h.DLL_IGES_ENTITY_406::GetProperty_Name(); }); bad(r,"DLL_IGES_ENTITY_406::GetProperty_Name",how); }
  { at(how+" DLL_IGES_ENTITY_406::SetProperty_Name(char const*)"); ev(); const char* a0="x"; auto r=run([&]{ return h.DLL_IGES_ENTITY_406::SetProperty_Name(a0); }); bad(r,"DLL_IGES_ENTITY_406::SetProperty_Name",how); }
}
static void calls_DLL_IGES_ENTITY_408(DLL_IGES_ENTITY_408& h,const std::string& how){
  { at(how+" DLL_IGES_ENTITY_408::GetDE(IGES_ENTITY_308*&)"); ev(); IGES_ENTITY_308* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_408::GetDE(a0); }); bad(r,"DLL_IGES_ENTITY_408::GetDE",how); }
  { at(how+" DLL_IGES_ENTITY_408::GetSubfigParams(double&, double&, double&, double&)"); ev(); double a0{}; double a1{}; double a2{}; double a3{}; auto r=run([&]{ return h.DLL_IGES_ENTITY_408::GetSubfigParams(a0,a1,a2,a3); }); bad(r,"DLL_IGES_ENTITY_408::GetSubfigParams",how); }
  { at(how+" DLL_IGES_ENTITY_408::GetSubfigure(IGES_ENTITY_308*&)"); ev(); IGES_ENTITY_308* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_408::GetSubfigure(a0); }); bad(r,"DLL_IGES_ENTITY_408::GetSubfigure",how); }
  { at(how+" DLL_IGES_ENTITY_408::SetDE(IGES_ENTITY_308*)"); ev(); IGES_ENTITY_308* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_408::SetDE(a0); }); bad(r,"DLL_IGES_ENTITY_408::SetDE",how); }
  { at(how+" DLL_IGES_ENTITY_408::SetSubfigParams(double, double, double, double)"); ev(); double a0=1; double a1=1; double a2=1; double a3=1; auto r=run([&]{ return h.DLL_IGES_ENTITY_408::SetSubfigParams(a0,a1,a2,a3); }); bad(r,"DLL_IGES_ENTITY_408::SetSubfigParams",how); }
  { at(how+" DLL_IGES_ENTITY_408::SetSubfigure(IGES_ENTITY_308*)"); ev(); IGES_ENTITY_308* a0=0; auto r=run([&]{ return h.DLL_IGES_ENTITY_408::SetSubfigure(a0); }); bad(r,"DLL_IGES_ENTITY_408::SetSubfigure",how); }
}
static void calls_DLL_IGES_GEOM_PCB(DLL_IGES_GEOM_PCB& h,const std::string& how){
  { at(how+" DLL_IGES_GEOM_PCB::GetCurveOnPlane(IGES*, IGES_ENTITY_126**&, int&, double, double, double, double, double, MCAD_SEGMENT*, bool)"); ev(); IGES* a0=0; IGES_ENTITY_126** a1=0; int a2{}; double a3=1; double a4=1; double a5=1; double a6=1; double a7=1; MCAD_SEGMENT* a8=0; bool a9=1; auto r=run([&]{ return h.DLL_IGES_GEOM_PCB::GetCurveOnPlane(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9); }); bad(r,"DLL_IGES_GEOM_PCB::GetCurveOnPlane",how); }
  { at(how+" DLL_IGES_GEOM_PCB::GetCurves(IGES*, IGES_CURVE**&, int&, double, MCAD_SEGMENT*)"); ev(); IGES* a0=0; IGES_CURVE** a1=0; int a2{}; double a3=1; MCAD_SEGMENT* a4=0; auto r=run([&]{ return h.DLL_IGES_GEOM_PCB::GetCurves(a0,a1,a2,a3,a4); }); bad(r,"DLL_IGES_GEOM_PCB::GetCurves",how); }
  { at(how+" DLL_IGES_GEOM_PCB::GetSegmentWall(IGES*, IGES_ENTITY_144**&, int&, double, double, MCAD_SEGMENT*, bool)"); ev(); IGES* a0=0; IGES_ENTITY_144** a1=0; int a2{}; double a3=1; double a4=1; MCAD_SEGMENT* a5=0; bool a6=1; auto r=run([&]{ return h.DLL_IGES_GEOM_PCB::GetSegmentWall(a0,a1,a2,a3,a4,a5,a6); }); bad(r,"DLL_IGES_GEOM_PCB::GetSegmentWall",how); }
  { at(how+" DLL_IGES_GEOM_PCB::GetTrimmedPlane(IGES*, bool&, IGES_ENTITY_144**&, int&, double, bool)"); ev(); IGES* a0=0; bool a1=false; IGES_ENTITY_144** a2=0; int a3{}; double a4=1; bool a5=1; auto r=run([&]{ return h.DLL_IGES_GEOM_PCB::GetTrimmedPlane(a0,a1,a2,a3,a4,a5); }); bad(r,"DLL_IGES_GEOM_PCB::GetTrimmedPlane",how); }
  { at(how+" DLL_IGES_GEOM_PCB::GetVerticalSurface(IGES*, bool&, IGES_ENTITY_144**&, int&, double, double)"); ev(); IGES* a0=0; bool a1=false; IGES_ENTITY_144** a2=0; int a3{}; double a4=1; double a5=1; auto r=run([&]{ return h.DLL_IGES_GEOM_PCB::GetVerticalSurface(a0,a1,a2,a3,a4,a5); }); bad(r,"DLL_IGES_GEOM_PCB::GetVerticalSurface",how); }
}
static void calls_DLL_MCAD_OUTLINE(DLL_MCAD_OUTLINE& h,const std::string& how){
  { at(how+" DLL_MCAD_OUTLINE::AddCutout(DLL_MCAD_OUTLINE&, bool, bool&)"); ev(); DLL_MCAD_OUTLINE a0(false); bool a1=1; bool a2=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::AddCutout(a0,a1,a2); }); bad(r,"DLL_MCAD_OUTLINE::AddCutout",how); }
  { at(how+" DLL_MCAD_OUTLINE::AddCutout(DLL_MCAD_SEGMENT&, bool, bool&)"); ev(); DLL_MCAD_SEGMENT a0(false); bool a1=1; bool a2=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::AddCutout(a0,a1,a2); }); bad(r,"DLL_MCAD_OUTLINE::AddCutout",how); }
  { at(how+" DLL_MCAD_OUTLINE::AddCutout(MCAD_OUTLINE*, bool, bool&)"); ev(); MCAD_OUTLINE* a0=0; bool a1=1; bool a2=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::AddCutout(a0,a1,a2); }); bad(r,"DLL_MCAD_OUTLINE::AddCutout",how); }
  { at(how+" DLL_MCAD_OUTLINE::AddCutout(MCAD_SEGMENT*, bool, bool&)"); ev(); MCAD_SEGMENT* a0=0; bool a1=1; bool a2=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::AddCutout(a0,a1,a2); }); bad(r,"DLL_MCAD_OUTLINE::AddCutout",how); }
  { at(how+" DLL_MCAD_OUTLINE::AddOutline(DLL_MCAD_OUTLINE&, bool&)"); ev(); DLL_MCAD_OUTLINE a0(false); bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::AddOutline(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::AddOutline",how); }
  { at(how+" DLL_MCAD_OUTLINE::AddOutline(DLL_MCAD_SEGMENT&, bool&)"); ev(); DLL_MCAD_SEGMENT a0(false); bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::AddOutline(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::AddOutline",how); }
  { at(how+" DLL_MCAD_OUTLINE::AddOutline(MCAD_OUTLINE*, bool&)"); ev(); MCAD_OUTLINE* a0=0; bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::AddOutline(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::AddOutline",how); }
  { at(how+" DLL_MCAD_OUTLINE::AddOutline(MCAD_SEGMENT*, bool&)"); ev(); MCAD_SEGMENT* a0=0; bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::AddOutline(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::AddOutline",how); }
  { at(how+" DLL_MCAD_OUTLINE::AddSegment(DLL_MCAD_SEGMENT&, bool&)"); ev(); DLL_MCAD_SEGMENT a0(false); bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::AddSegment(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::AddSegment",how); }
  { at(how+" DLL_MCAD_OUTLINE::AddSegment(MCAD_SEGMENT*, bool&)"); ev(); MCAD_SEGMENT* a0=0; bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::AddSegment(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::AddSegment",how); }
  { at(how+" DLL_MCAD_OUTLINE::ClearErrors()"); ev();  auto r=run([&]{ return h.DLL_MCAD_OUTLINE::ClearErrors(); }); bad(r,"DLL_MCAD_OUTLINE::ClearErrors",how); }
  { at(how+" DLL_MCAD_OUTLINE::GetCutouts(MCAD_OUTLINE**&, int&)"); ev(); MCAD_OUTLINE** a0=0; int a1{}; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::GetCutouts(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::GetCutouts",how); }
  { at(how+" DLL_MCAD_OUTLINE::GetDrillHoles(MCAD_SEGMENT**&, int&)"); ev(); MCAD_SEGMENT** a0=0; int a1{}; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::GetDrillHoles(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::GetDrillHoles",how); }
  { at(how+" DLL_MCAD_OUTLINE::GetErrors(char const**&, int&)"); ev(); const char** a0=0; int a1{}; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::GetErrors(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::GetErrors",how); }
  { at(how+" DLL_MCAD_OUTLINE::GetRawPtr()"); ev();  auto r=run([&]{ return h.DLL_MCAD_OUTLINE::GetRawPtr(); }); bad(r,"DLL_MCAD_OUTLINE::GetRawPtr",how); }
  { at(how+" DLL_MCAD_OUTLINE::GetSegments(MCAD_SEGMENT**&, int&)"); ev(); MCAD_SEGMENT** a0=0; int a1{}; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::GetSegments(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::GetSegments",how); }
  { at(how+" DLL_MCAD_OUTLINE::IsClosed(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::IsClosed(a0); }); bad(r,"DLL_MCAD_OUTLINE::IsClosed",how); }
  { at(how+" DLL_MCAD_OUTLINE::IsContiguous(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::IsContiguous(a0); }); bad(r,"DLL_MCAD_OUTLINE::IsContiguous",how); }
  { at(how+" DLL_MCAD_OUTLINE::IsInside(MCAD_POINT, bool&)"); ev(); MCAD_POINT a0={}; bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::IsInside(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::IsInside",how); }
  { at(how+" DLL_MCAD_OUTLINE::SubOutline(DLL_MCAD_OUTLINE&, bool&)"); ev(); DLL_MCAD_OUTLINE a0(false); bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::SubOutline(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::SubOutline",how); }
  { at(how+" DLL_MCAD_OUTLINE::SubOutline(DLL_MCAD_SEGMENT&, bool&)"); ev(); DLL_MCAD_SEGMENT a0(false); bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::SubOutline(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::SubOutline",how); }
  { at(how+" DLL_MCAD_OUTLINE::SubOutline(MCAD_OUTLINE*, bool&)"); ev(); MCAD_OUTLINE* a0=0; bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::SubOutline(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::SubOutline",how); }
  { at(how+" DLL_MCAD_OUTLINE::SubOutline(MCAD_SEGMENT*, bool&)"); ev(); MCAD_SEGMENT* a0=0; bool a1=false; auto r=run([&]{ return h.DLL_MCAD_OUTLINE::SubOutline(a0,a1); }); bad(r,"DLL_MCAD_OUTLINE::SubOutline",how); }
}
static void calls_DLL_MCAD_SEGMENT(DLL_MCAD_SEGMENT& h,const std::string& how){
  { at(how+" DLL_MCAD_SEGMENT::GetBoundingBox(MCAD_POINT&, MCAD_POINT&)"); ev(); MCAD_POINT a0{}; MCAD_POINT a1{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetBoundingBox(a0,a1); }); bad(r,"DLL_MCAD_SEGMENT::GetBoundingBox",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetCenter(MCAD_POINT&) const"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetCenter(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetCenter",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetEnd(MCAD_POINT&) const"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetEnd(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetEnd",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetEndAngle(double&) const"); ev(); double a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetEndAngle(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetEndAngle",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetFirstAngle(double&) const"); ev(); double a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetFirstAngle(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetFirstAngle",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetFirstPoint(MCAD_POINT&) const"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetFirstPoint(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetFirstPoint",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetIntersections(DLL_MCAD_SEGMENT&, MCAD_POINT*&, int&, MCAD_INTERSECT_FLAG&)"); ev(); DLL_MCAD_SEGMENT a0(false); MCAD_POINT* a1=0; int a2{}; MCAD_INTERSECT_FLAG a3=(MCAD_INTERSECT_FLAG)0; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetIntersections(a0,a1,a2,a3); }); bad(r,"DLL_MCAD_SEGMENT::GetIntersections",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetIntersections(MCAD_SEGMENT const*, MCAD_POINT*&, int&, MCAD_INTERSECT_FLAG&)"); ev(); MCAD_SEGMENT const* a0=0; MCAD_POINT* a1=0; int a2{}; MCAD_INTERSECT_FLAG a3=(MCAD_INTERSECT_FLAG)0; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetIntersections(a0,a1,a2,a3); }); bad(r,"DLL_MCAD_SEGMENT::GetIntersections",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetLastAngle(double&) const"); ev(); double a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetLastAngle(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetLastAngle",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetLastPoint(MCAD_POINT&) const"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetLastPoint(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetLastPoint",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetLength(double&)"); ev(); double a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetLength(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetLength",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetMidpoint(MCAD_POINT&)"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetMidpoint(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetMidpoint",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetRadius(double&) const"); ev(); double a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetRadius(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetRadius",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetRawPtr()"); ev();  auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetRawPtr(); }); bad(r,"DLL_MCAD_SEGMENT::GetRawPtr",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetSegType(MCAD_SEGTYPE&) const"); ev(); MCAD_SEGTYPE a0=(MCAD_SEGTYPE)0; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetSegType(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetSegType",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetStart(MCAD_POINT&) const"); ev(); MCAD_POINT a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetStart(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetStart",how); }
  { at(how+" DLL_MCAD_SEGMENT::GetStartAngle(double&) const"); ev(); double a0{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::GetStartAngle(a0); }); bad(r,"DLL_MCAD_SEGMENT::GetStartAngle",how); }
  { at(how+" DLL_MCAD_SEGMENT::IsCW(bool&)"); ev(); bool a0=false; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::IsCW(a0); }); bad(r,"DLL_MCAD_SEGMENT::IsCW",how); }
  { at(how+" DLL_MCAD_SEGMENT::Split(MCAD_POINT**, int, MCAD_SEGMENT**&, int&)"); ev(); MCAD_POINT** a0=0; int a1=1; MCAD_SEGMENT** a2=0; int a3{}; auto r=run([&]{ return h.DLL_MCAD_SEGMENT::Split(a0,a1,a2,a3); }); bad(r,"DLL_MCAD_SEGMENT::Split",how); }
}
