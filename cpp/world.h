// The program's global objects, created as main() does it, without threads or network.
#pragma once
#include "nzbget.h"
#include "Log.h"
#include "Options.h"
#include "WorkState.h"
#include "ServerPool.h"
#include "QueueCoordinator.h"
#include "UrlCoordinator.h"
#include "StatMeter.h"
#include "PrePostProcessor.h"
#include "HistoryCoordinator.h"
#include "DupeCoordinator.h"
#include "DiskState.h"
#include "Scanner.h"
#include "FeedCoordinator.h"
#include "Maintenance.h"
#include "ArticleWriter.h"
#include "QueueScript.h"
#include "Service.h"
#include "ScriptConfig.h"
#include "CommandScript.h"
#include "Thread.h"
#include "YEncode.h"
#include "Util.h"
#include "FileSystem.h"
#include <string>
#include <vector>

struct World
{
	std::vector<std::string> opts;
	Options::CmdOptList list;
	World(std::vector<std::string> o = {}, Options::Extender* ext = nullptr, bool disk = false) : opts(o)
	{
		Util::Init(); YEncode::init();
		new Log(); Thread::Init();
		g_WorkState = new WorkState();
		g_ServiceCoordinator = new ServiceCoordinator();
		g_ServerPool = new ServerPool();
		g_QueueCoordinator = new QueueCoordinator();
		g_StatMeter = new StatMeter();
		g_Scanner = new Scanner();
		g_PrePostProcessor = new PrePostProcessor();
		g_HistoryCoordinator = new HistoryCoordinator();
		g_DupeCoordinator = new DupeCoordinator();
		g_UrlCoordinator = new UrlCoordinator();
		g_FeedCoordinator = new FeedCoordinator();
		g_ArticleCache = new ArticleCache();
		g_Maintenance = new Maintenance();
		g_QueueScriptCoordinator = new QueueScriptCoordinator();
		g_DiskState = new DiskState();
		g_ScriptConfig = new ScriptConfig();
		g_CommandScriptLog = new CommandScriptLog();
		opts.push_back("OutputMode=log"); opts.push_back("WriteLog=none");
		for (auto& s : opts) list.push_back(s.c_str());
		if (disk) new Options("nzbget", nullptr, true, &list, ext);
		else new Options(&list, ext);
	}
};
