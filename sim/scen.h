// Lists of scenarios, one per translation unit; a flavour's main links the ones it can run.
#pragma once
#include "common.h"
namespace sim
{
void addScan(vector<Scenario>&);
void addDecode(vector<Scenario>&);
void addNormalize(vector<Scenario>&);
void addReset(vector<Scenario>&);
void addSegment(vector<Scenario>&);
void addWidth(vector<Scenario>&);
void addCpu(vector<Scenario>&);
void addAlloc(vector<Scenario>&);
void addCapi(vector<Scenario>&);
void addThreads(vector<Scenario>&);
void addTablegen(vector<Scenario>&);
void addQuery(vector<Scenario>&);
void addDirectory(vector<Scenario>&);
void addStream(vector<Scenario>&);
} // namespace sim
